/* Stand-in for the part of the public Exodus II API (SEACAS) that may be used (SEACAS is not installed here). */
#ifndef VERIF_EXODUSII_STUB
#define VERIF_EXODUSII_STUB
#include <stddef.h>
#include <stdint.h>
#define EX_NOCLOBBER 0x0004
#define EX_CLOBBER 0x0008
#define EX_NORMAL_MODEL 0x0010
#define EX_64BIT_OFFSET 0x0020
#define EX_LARGE_MODEL 0x0020
#define EX_64BIT_DATA 0x400000
#define EX_NETCDF4 0x0040
#define EX_READ 0x0002
#define EX_WRITE 0x0001
#define EX_VERBOSE 1
#define EX_DEBUG 2
#define EX_ABORT 4
#define MAX_STR_LENGTH 32L
#define MAX_LINE_LENGTH 80L
typedef int64_t ex_entity_id;
typedef void void_int;
enum ex_entity_type { EX_NODAL = 14, EX_NODE_BLOCK = 14, EX_NODE_SET = 2, EX_EDGE_BLOCK = 6, EX_EDGE_SET = 7, EX_FACE_BLOCK = 8, EX_FACE_SET = 9, EX_ELEM_BLOCK = 1, EX_ELEM_SET = 10, EX_SIDE_SET = 3, EX_ELEM_MAP = 4, EX_NODE_MAP = 5, EX_EDGE_MAP = 11, EX_FACE_MAP = 12, EX_GLOBAL = 13, EX_COORDINATE = 15, EX_ASSEMBLY = 16, EX_BLOB = 17, EX_INVALID = -1 };
typedef enum ex_entity_type ex_entity_type;
typedef struct ex_init_params {
  char title[81];
  int64_t num_dim, num_nodes, num_edge, num_edge_blk, num_face, num_face_blk, num_elem, num_elem_blk, num_node_sets, num_edge_sets, num_face_sets, num_side_sets, num_elem_sets, num_node_maps, num_edge_maps, num_face_maps, num_elem_maps, num_assembly, num_blob;
} ex_init_params;
typedef enum ex_inquiry { EX_INQ_TITLE = 4, EX_INQ_DIM = 5, EX_INQ_NODES = 6, EX_INQ_ELEM = 7 } ex_inquiry;
#ifdef __cplusplus
extern "C" {
#endif
int ex_create_int(const char *, int, int *, int *, int);
int ex_open_int(const char *, int, int *, int *, float *, int);
#define ex_create(path, mode, c, i) ex_create_int(path, mode, c, i, 8)
#define ex_open(path, mode, c, i, v) ex_open_int(path, mode, c, i, v, 8)
int ex_close(int);
int ex_update(int);
int ex_opts(int);
int ex_put_init(int, const char *, int64_t, int64_t, int64_t, int64_t, int64_t, int64_t);
int ex_put_init_ext(int, const ex_init_params *);
int ex_put_coord(int, const void *, const void *, const void *);
int ex_put_coord_names(int, char *[]);
int ex_put_block(int, ex_entity_type, ex_entity_id, const char *, int64_t, int64_t, int64_t, int64_t, int64_t);
int ex_get_block(int, ex_entity_type, ex_entity_id, char *, void_int *, void_int *, void_int *, void_int *, void_int *);
int ex_put_conn(int, ex_entity_type, ex_entity_id, const void_int *, const void_int *, const void_int *);
int ex_put_entity_count_per_polyhedra(int, ex_entity_type, ex_entity_id, const int *);
int ex_put_name(int, ex_entity_type, ex_entity_id, const char *);
int ex_put_names(int, ex_entity_type, char **);
int ex_put_id_map(int, ex_entity_type, const void_int *);
int ex_put_set_param(int, ex_entity_type, ex_entity_id, int64_t, int64_t);
int ex_put_set(int, ex_entity_type, ex_entity_id, const void_int *, const void_int *);
int ex_put_set_dist_fact(int, ex_entity_type, ex_entity_id, const void *);
int ex_put_prop(int, ex_entity_type, ex_entity_id, const char *, ex_entity_id);
int ex_put_prop_names(int, ex_entity_type, int, char **);
int ex_put_time(int, int, const void *);
int ex_put_variable_param(int, ex_entity_type, int);
int ex_put_variable_names(int, ex_entity_type, int, char *[]);
int ex_put_var(int, int, ex_entity_type, int, ex_entity_id, int64_t, const void *);
int ex_put_qa(int, int, char *[][4]);
int ex_put_info(int, int, char *[]);
int64_t ex_inquire_int(int, ex_inquiry);
char *ex_copy_string(char *dest, char const *source, size_t elements);
int ex_set_max_name_length(int, int);
void ex_err(const char *, const char *, int);
const char *ex_strerror(int);
#ifdef __cplusplus
}
#endif
#endif
