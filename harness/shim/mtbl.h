/*
 * Stand-in for libmtbl's public interface (the library is not installed in
 * this sandbox).  Declarations follow libmtbl 1.6; shim_mtbl.c implements
 * them over in-memory sorted tables.
 */
#ifndef MTBL_H
#define MTBL_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { mtbl_res_failure = 0, mtbl_res_success = 1 } mtbl_res;
typedef enum {
	MTBL_COMPRESSION_NONE = 0, MTBL_COMPRESSION_SNAPPY = 1, MTBL_COMPRESSION_ZLIB = 2,
	MTBL_COMPRESSION_LZ4 = 3, MTBL_COMPRESSION_LZ4HC = 4, MTBL_COMPRESSION_ZSTD = 5
} mtbl_compression_type;

struct mtbl_iter; struct mtbl_source;
struct mtbl_reader; struct mtbl_reader_options;
struct mtbl_writer; struct mtbl_writer_options;
struct mtbl_merger; struct mtbl_merger_options;
struct mtbl_fileset; struct mtbl_fileset_options;
struct mtbl_metadata;

typedef mtbl_res (*mtbl_iter_seek_func)(void *, const uint8_t *, size_t);
typedef mtbl_res (*mtbl_iter_next_func)(void *, const uint8_t **, size_t *, const uint8_t **, size_t *);
typedef void (*mtbl_iter_free_func)(void *);
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func, mtbl_iter_next_func, mtbl_iter_free_func, void *);
void mtbl_iter_destroy(struct mtbl_iter **);
mtbl_res mtbl_iter_seek(struct mtbl_iter *, const uint8_t *, size_t);
mtbl_res mtbl_iter_next(struct mtbl_iter *, const uint8_t **, size_t *, const uint8_t **, size_t *);

typedef struct mtbl_iter *(*mtbl_source_iter_func)(void *);
typedef struct mtbl_iter *(*mtbl_source_get_func)(void *, const uint8_t *, size_t);
typedef struct mtbl_iter *(*mtbl_source_get_prefix_func)(void *, const uint8_t *, size_t);
typedef struct mtbl_iter *(*mtbl_source_get_range_func)(void *, const uint8_t *, size_t, const uint8_t *, size_t);
typedef void (*mtbl_source_free_func)(void *);
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func, mtbl_source_get_func,
	mtbl_source_get_prefix_func, mtbl_source_get_range_func, mtbl_source_free_func, void *);
void mtbl_source_destroy(struct mtbl_source **);
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *);
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *, const uint8_t *, size_t);
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *, const uint8_t *, size_t);
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *, const uint8_t *, size_t,
	const uint8_t *, size_t);
mtbl_res mtbl_source_write(const struct mtbl_source *, struct mtbl_writer *);

typedef void (*mtbl_merge_func)(void *, const uint8_t *, size_t, const uint8_t *, size_t,
	const uint8_t *, size_t, uint8_t **, size_t *);
typedef int (*mtbl_dupsort_func)(void *, const uint8_t *, size_t, const uint8_t *, size_t,
	const uint8_t *, size_t);
typedef bool (*mtbl_reader_filter_func)(struct mtbl_reader *, void *);
typedef bool (*mtbl_filename_filter_func)(const char *, void *);

struct mtbl_reader *mtbl_reader_init(const char *, const struct mtbl_reader_options *);
struct mtbl_reader *mtbl_reader_init_fd(int, const struct mtbl_reader_options *);
void mtbl_reader_destroy(struct mtbl_reader **);
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *);
const struct mtbl_metadata *mtbl_reader_metadata(struct mtbl_reader *);
uint64_t mtbl_metadata_count_entries(const struct mtbl_metadata *);
struct mtbl_reader_options *mtbl_reader_options_init(void);
void mtbl_reader_options_destroy(struct mtbl_reader_options **);
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *, bool);
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *, bool);

struct mtbl_writer *mtbl_writer_init(const char *, const struct mtbl_writer_options *);
void mtbl_writer_destroy(struct mtbl_writer **);
mtbl_res mtbl_writer_add(struct mtbl_writer *, const uint8_t *, size_t, const uint8_t *, size_t);
struct mtbl_writer_options *mtbl_writer_options_init(void);
void mtbl_writer_options_destroy(struct mtbl_writer_options **);
void mtbl_writer_options_set_compression(struct mtbl_writer_options *, mtbl_compression_type);

struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *);
void mtbl_merger_destroy(struct mtbl_merger **);
void mtbl_merger_add_source(struct mtbl_merger *, const struct mtbl_source *);
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *);
struct mtbl_merger_options *mtbl_merger_options_init(void);
void mtbl_merger_options_destroy(struct mtbl_merger_options **);
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *, mtbl_merge_func, void *);
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *, mtbl_dupsort_func, void *);

#define MTBL_FILESET_RELOAD_INTERVAL_NEVER UINT32_MAX
struct mtbl_fileset *mtbl_fileset_init(const char *, const struct mtbl_fileset_options *);
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *, const struct mtbl_fileset_options *);
void mtbl_fileset_destroy(struct mtbl_fileset **);
void mtbl_fileset_reload(struct mtbl_fileset *);
void mtbl_fileset_reload_now(struct mtbl_fileset *);
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *);
void mtbl_fileset_partition(struct mtbl_fileset *, mtbl_filename_filter_func,
	struct mtbl_merger **, struct mtbl_merger **);
struct mtbl_fileset_options *mtbl_fileset_options_init(void);
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **);
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *, mtbl_merge_func, void *);
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *, mtbl_dupsort_func, void *);
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *, mtbl_filename_filter_func, void *);
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *, mtbl_reader_filter_func, void *);
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *, uint32_t);
void mtbl_fileset_options_set_reader_options(struct mtbl_fileset_options *, struct mtbl_reader_options *);

size_t mtbl_fixed_encode32(uint8_t *, uint32_t);
size_t mtbl_fixed_encode64(uint8_t *, uint64_t);
uint32_t mtbl_fixed_decode32(const uint8_t *);
uint64_t mtbl_fixed_decode64(const uint8_t *);
unsigned mtbl_varint_length(uint64_t);
unsigned mtbl_varint_length_packed(const uint8_t *, size_t);
size_t mtbl_varint_encode32(uint8_t *, uint32_t);
size_t mtbl_varint_encode64(uint8_t *, uint64_t);
size_t mtbl_varint_decode32(const uint8_t *, uint32_t *);
size_t mtbl_varint_decode64(const uint8_t *, uint64_t *);

/* --- extensions used only by the harness in /verif --- */
struct mtbl_reader *shim_reader_new(void);
mtbl_res shim_reader_add(struct mtbl_reader *, const uint8_t *, size_t, const uint8_t *, size_t);
extern void (*shim_on_upstream_next)(void);	/* called before each reader-level next() */
extern unsigned shim_merge_order;		/* rotates the order in which duplicates are merged */
#ifdef __cplusplus
}
#endif
#endif
