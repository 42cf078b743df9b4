// Runtime of the symbolic build: standard streams, C files in memory, and the libyaml document interface (a private text form
// takes the place of YAML text: whatever is emitted parses back to the same document).
#include <iostream>
#include <string.h>
#include <stdlib.h>
#include <new>
extern "C" {
#include <yaml.h>
}
namespace std { ostream cout, cerr, clog; istream cin; }
struct SxFile { std::string name, data; size_t pos; bool wr; };
static inline SxFile* F(FILE* f) { return (SxFile*)f; }
extern "C" {
FILE* fopen(const char* n, const char* m) {
  auto& fs = sxs::files(); SxFile* f; std::string nm(n); bool wr = m[0] != 'r';
  if (!wr && !fs.count(nm)) return 0;
  f = new SxFile(); f->name = nm; f->pos = 0; f->wr = wr; if (m[0] != 'w') { auto it = fs.find(nm); if (it != fs.end()) f->data = it->second; } if (m[0] == 'a') f->pos = f->data.size();
  if (wr) fs[nm] = f->data; return (FILE*)f; }
int fclose(FILE* fp) { SxFile* f = F(fp); if (f->wr) sxs::files()[f->name] = f->data; delete f; return 0; }
size_t fread(void* p, size_t s, size_t n, FILE* fp) { SxFile* f = F(fp); size_t k = s * n, a = f->data.size() - f->pos; if (k > a) k = a; memcpy(p, f->data.data() + f->pos, k); f->pos += k; return s ? k / s : 0; }
size_t fwrite(const void* p, size_t s, size_t n, FILE* fp) { SxFile* f = F(fp); f->data.append((const char*)p, s * n); return n; }
int feof(FILE* fp) { return F(fp)->pos >= F(fp)->data.size(); }
int yaml_parser_initialize(yaml_parser_t* p) { memset(p, 0, sizeof *p); p->problem = ""; return 1; }
void yaml_parser_delete(yaml_parser_t* p) { p->in = 0; p->file = 0; }
void yaml_parser_set_input_string(yaml_parser_t* p, const unsigned char* s, size_t n) { p->in = s; p->size = n; }
void yaml_parser_set_input_file(yaml_parser_t* p, FILE* f) { p->file = f; }
int yaml_emitter_initialize(yaml_emitter_t* e) { memset(e, 0, sizeof *e); return 1; }
void yaml_emitter_delete(yaml_emitter_t* e) { memset(e, 0, sizeof *e); }
void yaml_emitter_set_output_string(yaml_emitter_t* e, unsigned char* o, size_t n, size_t* w) { e->out = o; e->size = n; e->written = w; *w = 0; }
void yaml_emitter_set_output(yaml_emitter_t* e, yaml_write_handler_t* f, void* d) { e->fn = f; e->data = d; }
void yaml_emitter_set_output_file(yaml_emitter_t* e, FILE* f) { e->file = f; }
int yaml_document_initialize(yaml_document_t* d, void*, void*, void*, int, int) { d->nodes.start = (yaml_node_t*)malloc(16 * sizeof(yaml_node_t)); d->nodes.end = d->nodes.start + 16; d->nodes.top = d->nodes.start; return 1; }
void yaml_document_delete(yaml_document_t* d) {
  for (yaml_node_t* n = d->nodes.start; n < d->nodes.top; n++) { if (n->type == YAML_SCALAR_NODE) free(n->data.scalar.value); else if (n->type == YAML_SEQUENCE_NODE) free(n->data.sequence.items.start); else if (n->type == YAML_MAPPING_NODE) free(n->data.mapping.pairs.start); }
  free(d->nodes.start); memset(d, 0, sizeof *d); }
yaml_node_t* yaml_document_get_node(yaml_document_t* d, int i) { return i > 0 && d->nodes.start + i <= d->nodes.top ? d->nodes.start + i - 1 : 0; }
yaml_node_t* yaml_document_get_root_node(yaml_document_t* d) { return d->nodes.top != d->nodes.start ? d->nodes.start : 0; }
static yaml_node_t* addNode(yaml_document_t* d) {
  if (d->nodes.top == d->nodes.end) { size_t n = d->nodes.end - d->nodes.start; yaml_node_t* s = (yaml_node_t*)malloc(2 * n * sizeof(yaml_node_t)); memcpy(s, d->nodes.start, n * sizeof(yaml_node_t)); free(d->nodes.start); d->nodes.start = s; d->nodes.top = s + n; d->nodes.end = s + 2 * n; }
  yaml_node_t* n = d->nodes.top++; memset(n, 0, sizeof *n); return n; }
int yaml_document_add_scalar(yaml_document_t* d, yaml_char_t*, yaml_char_t* v, int len, yaml_scalar_style_t st) { size_t n = len < 0 ? strlen((char*)v) : (size_t)len; yaml_node_t* x = addNode(d); x->type = YAML_SCALAR_NODE; x->data.scalar.value = (yaml_char_t*)malloc(n + 1); memcpy(x->data.scalar.value, v, n); x->data.scalar.value[n] = 0; x->data.scalar.length = n; x->data.scalar.style = st; return (int)(d->nodes.top - d->nodes.start); }
int yaml_document_add_sequence(yaml_document_t* d, yaml_char_t*, yaml_sequence_style_t st) { yaml_node_t* x = addNode(d); x->type = YAML_SEQUENCE_NODE; x->data.sequence.style = st; x->data.sequence.items.start = (int*)malloc(16 * sizeof(int)); x->data.sequence.items.top = x->data.sequence.items.start; x->data.sequence.items.end = x->data.sequence.items.start + 16; return (int)(d->nodes.top - d->nodes.start); }
int yaml_document_add_mapping(yaml_document_t* d, yaml_char_t*, yaml_mapping_style_t st) { yaml_node_t* x = addNode(d); x->type = YAML_MAPPING_NODE; x->data.mapping.style = st; x->data.mapping.pairs.start = (yaml_node_pair_t*)malloc(16 * sizeof(yaml_node_pair_t)); x->data.mapping.pairs.top = x->data.mapping.pairs.start; x->data.mapping.pairs.end = x->data.mapping.pairs.start + 16; return (int)(d->nodes.top - d->nodes.start); }
int yaml_document_append_sequence_item(yaml_document_t* d, int s, int i) { auto& q = d->nodes.start[s - 1].data.sequence.items; if (q.top == q.end) { size_t n = q.end - q.start; int* z = (int*)malloc(2 * n * sizeof(int)); memcpy(z, q.start, n * sizeof(int)); free(q.start); q.start = z; q.top = z + n; q.end = z + 2 * n; } *q.top++ = i; return 1; }
int yaml_document_append_mapping_pair(yaml_document_t* d, int m, int k, int v) { auto& q = d->nodes.start[m - 1].data.mapping.pairs; if (q.top == q.end) { size_t n = q.end - q.start; yaml_node_pair_t* z = (yaml_node_pair_t*)malloc(2 * n * sizeof(yaml_node_pair_t)); memcpy(z, q.start, n * sizeof(yaml_node_pair_t)); free(q.start); q.start = z; q.top = z + n; q.end = z + 2 * n; } q.top->key = k; q.top->value = v; q.top++; return 1; }
}
static void num(std::string& o, size_t n) { sxs::putInt(o, (long)n, false, 10); o.push_back(':'); }
static void dump(std::string& o, yaml_document_t* d, int i) {
  yaml_node_t* n = yaml_document_get_node(d, i); if (!n) { o.push_back('N'); return; }
  if (n->type == YAML_SCALAR_NODE) { o.push_back('S'); num(o, n->data.scalar.length); o.append((char*)n->data.scalar.value, n->data.scalar.length); }
  else if (n->type == YAML_SEQUENCE_NODE) { o.push_back('Q'); auto& q = n->data.sequence.items; num(o, q.top - q.start); for (int* p = q.start; p < q.top; p++) dump(o, d, *p); }
  else { o.push_back('M'); auto& q = n->data.mapping.pairs; num(o, q.top - q.start); for (yaml_node_pair_t* p = q.start; p < q.top; p++) { dump(o, d, p->key); dump(o, d, p->value); } } }
static bool len(const std::string& s, size_t& p, size_t& n) { long v; if (!sxs::getInt(s, p, v) || p >= s.size() || s[p] != ':' || v < 0) return false; p++; n = (size_t)v; return true; }
static int load(const std::string& s, size_t& p, yaml_document_t* d) {
  if (p >= s.size()) return -1; char c = s[p++]; size_t n;
  if (c == 'S') { if (!len(s, p, n) || p + n > s.size()) return -1; int r = yaml_document_add_scalar(d, 0, (yaml_char_t*)s.data() + p, (int)n, YAML_PLAIN_SCALAR_STYLE); p += n; return r; }
  if (c == 'Q') { if (!len(s, p, n)) return -1; int r = yaml_document_add_sequence(d, 0, YAML_ANY_SEQUENCE_STYLE); for (size_t i = 0; i < n; i++) { int x = load(s, p, d); if (x < 0) return -1; yaml_document_append_sequence_item(d, r, x); } return r; }
  if (c == 'M') { if (!len(s, p, n)) return -1; int r = yaml_document_add_mapping(d, 0, YAML_ANY_MAPPING_STYLE); for (size_t i = 0; i < n; i++) { int k = load(s, p, d); if (k < 0) return -1; int v = load(s, p, d); if (v < 0) return -1; yaml_document_append_mapping_pair(d, r, k, v); } return r; }
  return -1; }
extern "C" {
int yaml_emitter_dump(yaml_emitter_t* e, yaml_document_t* d) {
  std::string o; dump(o, d, 1); yaml_document_delete(d);
  if (e->file) { F(e->file)->data += o; return 1; }
  if (e->fn) { for (size_t p = 0; p < o.size(); p += 16384) { size_t n = o.size() - p < 16384 ? o.size() - p : 16384; if (!e->fn(e->data, (unsigned char*)o.data() + p, n)) return 0; } return 1; }
  size_t n = o.size() < e->size ? o.size() : e->size; memcpy(e->out, o.data(), n); *e->written = n; return n == o.size(); }
int yaml_parser_load(yaml_parser_t* p, yaml_document_t* d) {
  std::string s; if (p->file) s = F(p->file)->data; else s.assign((const char*)p->in, p->size);
  yaml_document_initialize(d, 0, 0, 0, 1, 1); if (s.empty()) return 1; size_t q = 0; if (load(s, q, d) < 0) { yaml_document_delete(d); p->problem = "bad"; return 0; } return 1; }
}
