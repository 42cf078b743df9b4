#pragma once
#include <stdlib.h>
#include <string.h>
class OGRSpatialReference { public: int SetUTM(int, int = 1) { return 0; } int SetWellKnownGeogCS(const char*) { return 0; } int exportToWkt(char** s) { *s = (char*)malloc(4); strcpy(*s, "WKT"); return 0; } };
