/* Stand-in for libyaml's document interface in the symbolic build. */
#ifndef SX_YAML_H
#define SX_YAML_H
#include <stddef.h>
#include <stdio.h>
typedef unsigned char yaml_char_t;
typedef enum { YAML_ANY_SCALAR_STYLE, YAML_PLAIN_SCALAR_STYLE, YAML_SINGLE_QUOTED_SCALAR_STYLE, YAML_DOUBLE_QUOTED_SCALAR_STYLE, YAML_LITERAL_SCALAR_STYLE, YAML_FOLDED_SCALAR_STYLE } yaml_scalar_style_t;
typedef enum { YAML_ANY_SEQUENCE_STYLE, YAML_BLOCK_SEQUENCE_STYLE, YAML_FLOW_SEQUENCE_STYLE } yaml_sequence_style_t;
typedef enum { YAML_ANY_MAPPING_STYLE, YAML_BLOCK_MAPPING_STYLE, YAML_FLOW_MAPPING_STYLE } yaml_mapping_style_t;
typedef enum { YAML_NO_NODE, YAML_SCALAR_NODE, YAML_SEQUENCE_NODE, YAML_MAPPING_NODE } yaml_node_type_t;
typedef int yaml_node_item_t;
typedef struct yaml_node_pair_s { int key; int value; } yaml_node_pair_t;
typedef struct yaml_node_s { yaml_node_type_t type; union { struct { yaml_char_t* value; size_t length; yaml_scalar_style_t style; } scalar; struct { struct { yaml_node_item_t *start, *end, *top; } items; yaml_sequence_style_t style; } sequence; struct { struct { yaml_node_pair_t *start, *end, *top; } pairs; yaml_mapping_style_t style; } mapping; } data; } yaml_node_t;
typedef struct { size_t index, line, column; } yaml_mark_t;
typedef struct yaml_document_s { struct { yaml_node_t *start, *end, *top; } nodes; } yaml_document_t;
typedef struct yaml_parser_s { const char* problem; yaml_mark_t problem_mark; const unsigned char* in; size_t size; FILE* file; } yaml_parser_t;
typedef struct yaml_emitter_s { unsigned char* out; size_t size; size_t* written; FILE* file; int (*fn)(void*, unsigned char*, size_t); void* data; } yaml_emitter_t;
typedef int yaml_write_handler_t(void* data, unsigned char* buffer, size_t size);
int yaml_parser_initialize(yaml_parser_t*); void yaml_parser_delete(yaml_parser_t*); void yaml_parser_set_input_string(yaml_parser_t*, const unsigned char*, size_t); void yaml_parser_set_input_file(yaml_parser_t*, FILE*); int yaml_parser_load(yaml_parser_t*, yaml_document_t*);
int yaml_emitter_initialize(yaml_emitter_t*); void yaml_emitter_delete(yaml_emitter_t*); void yaml_emitter_set_output_string(yaml_emitter_t*, unsigned char*, size_t, size_t*); void yaml_emitter_set_output(yaml_emitter_t*, yaml_write_handler_t*, void*); void yaml_emitter_set_output_file(yaml_emitter_t*, FILE*); int yaml_emitter_dump(yaml_emitter_t*, yaml_document_t*);
int yaml_document_initialize(yaml_document_t*, void*, void*, void*, int, int); void yaml_document_delete(yaml_document_t*); yaml_node_t* yaml_document_get_node(yaml_document_t*, int); yaml_node_t* yaml_document_get_root_node(yaml_document_t*);
int yaml_document_add_scalar(yaml_document_t*, yaml_char_t* tag, yaml_char_t* value, int len, yaml_scalar_style_t); int yaml_document_add_sequence(yaml_document_t*, yaml_char_t*, yaml_sequence_style_t); int yaml_document_add_mapping(yaml_document_t*, yaml_char_t*, yaml_mapping_style_t);
int yaml_document_append_sequence_item(yaml_document_t*, int, int); int yaml_document_append_mapping_pair(yaml_document_t*, int, int, int);
#endif
