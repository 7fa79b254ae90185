// Stand-in for the C provider interface: the wsrep-API submodule is not part
// of this tree, so the declarations the adapter (src/wsrep_provider_v26.cpp,
// src/*_service_v1.cpp) uses are written down here. Used for check C22 only.
#ifndef WSREP_API_H
#define WSREP_API_H
#include <stdint.h>
#include <stdlib.h>
#include <stdbool.h>
#include <sys/types.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
#define WSREP_INTERFACE_VERSION "26"
typedef uint64_t wsrep_cap_t;
typedef uint64_t wsrep_trx_id_t;
typedef uint64_t wsrep_conn_id_t;
typedef int64_t wsrep_seqno_t;
#ifdef __cplusplus
typedef bool wsrep_bool_t;
#else
typedef _Bool wsrep_bool_t;
#endif
#define WSREP_SEQNO_UNDEFINED (-1)
#define WSREP_FLAG_TRX_END (1ULL << 0)
#define WSREP_FLAG_ROLLBACK (1ULL << 1)
#define WSREP_FLAG_ISOLATION (1ULL << 2)
#define WSREP_FLAG_PA_UNSAFE (1ULL << 3)
#define WSREP_FLAG_COMMUTATIVE (1ULL << 4)
#define WSREP_FLAG_NATIVE (1ULL << 5)
#define WSREP_FLAG_TRX_START (1ULL << 6)
#define WSREP_FLAG_TRX_PREPARE (1ULL << 7)
#define WSREP_FLAG_SNAPSHOT (1ULL << 8)
#define WSREP_FLAG_IMPLICIT_DEPS (1ULL << 9)
#define WSREP_FLAGS_LAST WSREP_FLAG_IMPLICIT_DEPS
#define WSREP_FLAGS_MASK ((WSREP_FLAGS_LAST << 1) - 1)
#define WSREP_CAP_MULTI_MASTER (1ULL << 0)
#define WSREP_CAP_CERTIFICATION (1ULL << 1)
#define WSREP_CAP_PARALLEL_APPLYING (1ULL << 2)
#define WSREP_CAP_TRX_REPLAY (1ULL << 3)
#define WSREP_CAP_ISOLATION (1ULL << 4)
#define WSREP_CAP_PAUSE (1ULL << 5)
#define WSREP_CAP_CAUSAL_READS (1ULL << 6)
#define WSREP_CAP_CAUSAL_TRX (1ULL << 7)
#define WSREP_CAP_INCREMENTAL_WRITESET (1ULL << 8)
#define WSREP_CAP_SESSION_LOCKS (1ULL << 9)
#define WSREP_CAP_DISTRIBUTED_LOCKS (1ULL << 10)
#define WSREP_CAP_CONSISTENCY_CHECK (1ULL << 11)
#define WSREP_CAP_UNORDERED (1ULL << 12)
#define WSREP_CAP_ANNOTATION (1ULL << 13)
#define WSREP_CAP_PREORDERED (1ULL << 14)
#define WSREP_CAP_STREAMING (1ULL << 15)
#define WSREP_CAP_SNAPSHOT (1ULL << 16)
#define WSREP_CAP_NBO (1ULL << 17)
typedef enum wsrep_log_level { WSREP_LOG_FATAL, WSREP_LOG_ERROR, WSREP_LOG_WARN, WSREP_LOG_INFO, WSREP_LOG_DEBUG } wsrep_log_level_t;
typedef void (*wsrep_log_cb_t)(wsrep_log_level_t, const char*);
typedef enum wsrep_status
{
    WSREP_OK = 0, WSREP_WARNING, WSREP_TRX_MISSING, WSREP_TRX_FAIL, WSREP_BF_ABORT, WSREP_SIZE_EXCEEDED,
    WSREP_CONN_FAIL, WSREP_NODE_FAIL, WSREP_FATAL, WSREP_NOT_IMPLEMENTED, WSREP_NOT_ALLOWED
} wsrep_status_t;
typedef enum wsrep_cb_status { WSREP_CB_SUCCESS = 0, WSREP_CB_FAILURE } wsrep_cb_status_t;
typedef struct wsrep_uuid { uint8_t data[16]; } wsrep_uuid_t;
typedef struct wsrep_gtid { wsrep_uuid_t uuid; wsrep_seqno_t seqno; } wsrep_gtid_t;
typedef struct wsrep_stid { wsrep_uuid_t node; wsrep_trx_id_t trx; wsrep_conn_id_t conn; } wsrep_stid_t;
typedef struct wsrep_buf { const void* ptr; size_t len; } wsrep_buf_t;
#define WSREP_MEMBER_NAME_LEN 32
#define WSREP_INCOMING_LEN 256
typedef struct wsrep_member_info { wsrep_uuid_t id; char name[WSREP_MEMBER_NAME_LEN]; char incoming[WSREP_INCOMING_LEN]; } wsrep_member_info_t;
typedef enum wsrep_view_status { WSREP_VIEW_PRIMARY, WSREP_VIEW_NON_PRIMARY, WSREP_VIEW_DISCONNECTED, WSREP_VIEW_MAX } wsrep_view_status_t;
typedef struct wsrep_view_info
{
    wsrep_gtid_t state_id;
    wsrep_seqno_t view;
    wsrep_view_status_t status;
    wsrep_cap_t capabilities;
    int my_idx;
    int memb_num;
    int proto_ver;
    wsrep_member_info_t members[1];
} wsrep_view_info_t;
typedef struct wsrep_ws_handle { wsrep_trx_id_t trx_id; void* opaque; } wsrep_ws_handle_t;
typedef struct wsrep_trx_meta { wsrep_gtid_t gtid; wsrep_stid_t stid; wsrep_seqno_t depends_on; } wsrep_trx_meta_t;
typedef enum wsrep_enc_direction { WSREP_ENC, WSREP_DEC } wsrep_enc_direction_t;
typedef struct wsrep_enc_key { const void* ptr; size_t len; } wsrep_enc_key_t;
typedef struct wsrep_enc_ctx { const wsrep_enc_key_t* key; const char (*iv)[32]; void* ctx; } wsrep_enc_ctx_t;
typedef wsrep_cb_status_t (*wsrep_connected_cb_t)(void*, const wsrep_view_info_t*);
typedef wsrep_cb_status_t (*wsrep_view_cb_t)(void*, void*, const wsrep_view_info_t*, const char*, size_t);
typedef wsrep_cb_status_t (*wsrep_sst_request_cb_t)(void*, void**, size_t*);
typedef int (*wsrep_encrypt_cb_t)(void*, wsrep_enc_ctx_t*, const wsrep_buf_t*, void*, wsrep_enc_direction_t, bool);
typedef wsrep_cb_status_t (*wsrep_apply_cb_t)(void*, const wsrep_ws_handle_t*, uint32_t, const wsrep_buf_t*, const wsrep_trx_meta_t*, wsrep_bool_t*);
typedef wsrep_cb_status_t (*wsrep_unordered_cb_t)(void*, const wsrep_buf_t*);
typedef wsrep_cb_status_t (*wsrep_sst_donate_cb_t)(void*, void*, const wsrep_buf_t*, const wsrep_gtid_t*, const wsrep_buf_t*, bool);
typedef wsrep_cb_status_t (*wsrep_synced_cb_t)(void*);
struct wsrep_init_args
{
    void* app_ctx;
    const char* node_name;
    const char* node_address;
    const char* node_incoming;
    const char* data_dir;
    const char* options;
    int proto_ver;
    const wsrep_gtid_t* state_id;
    const wsrep_buf_t* state;
    wsrep_log_cb_t logger_cb;
    wsrep_connected_cb_t connected_cb;
    wsrep_view_cb_t view_cb;
    wsrep_sst_request_cb_t sst_request_cb;
    wsrep_encrypt_cb_t encrypt_cb;
    wsrep_apply_cb_t apply_cb;
    wsrep_unordered_cb_t unordered_cb;
    wsrep_sst_donate_cb_t sst_donate_cb;
    wsrep_synced_cb_t synced_cb;
};
typedef enum wsrep_var_type { WSREP_VAR_STRING, WSREP_VAR_INT64, WSREP_VAR_DOUBLE } wsrep_var_type_t;
struct wsrep_stats_var
{
    const char* name;
    wsrep_var_type_t type;
    union { int64_t _int64; double _double; const char* _string; } value;
};
typedef enum wsrep_key_type { WSREP_KEY_SHARED = 0, WSREP_KEY_REFERENCE, WSREP_KEY_UPDATE, WSREP_KEY_EXCLUSIVE } wsrep_key_type_t;
typedef struct wsrep_key { const wsrep_buf_t* key_parts; size_t key_parts_num; } wsrep_key_t;
typedef enum wsrep_data_type { WSREP_DATA_ORDERED = 0, WSREP_DATA_UNORDERED, WSREP_DATA_ANNOTATION } wsrep_data_type_t;
typedef struct wsrep_st wsrep_t;
struct wsrep_st
{
    const char* version;
    wsrep_status_t (*init)(wsrep_t*, const struct wsrep_init_args*);
    wsrep_cap_t (*capabilities)(wsrep_t*);
    wsrep_status_t (*options_set)(wsrep_t*, const char*);
    char* (*options_get)(wsrep_t*);
    wsrep_status_t (*enc_set_key)(wsrep_t*, const wsrep_enc_key_t*);
    wsrep_status_t (*connect)(wsrep_t*, const char*, const char*, const char*, wsrep_bool_t);
    wsrep_status_t (*disconnect)(wsrep_t*);
    wsrep_status_t (*recv)(wsrep_t*, void*);
    wsrep_status_t (*assign_read_view)(wsrep_t*, wsrep_ws_handle_t*, const wsrep_gtid_t*);
    wsrep_status_t (*certify)(wsrep_t*, wsrep_conn_id_t, wsrep_ws_handle_t*, uint32_t, wsrep_trx_meta_t*);
    wsrep_status_t (*commit_order_enter)(wsrep_t*, const wsrep_ws_handle_t*, const wsrep_trx_meta_t*);
    wsrep_status_t (*commit_order_leave)(wsrep_t*, const wsrep_ws_handle_t*, const wsrep_trx_meta_t*, const wsrep_buf_t*);
    wsrep_status_t (*release)(wsrep_t*, wsrep_ws_handle_t*);
    wsrep_status_t (*replay_trx)(wsrep_t*, const wsrep_ws_handle_t*, void*);
    wsrep_status_t (*abort_certification)(wsrep_t*, wsrep_seqno_t, wsrep_trx_id_t, wsrep_seqno_t*);
    wsrep_status_t (*rollback)(wsrep_t*, wsrep_trx_id_t, const wsrep_buf_t*);
    wsrep_status_t (*append_key)(wsrep_t*, wsrep_ws_handle_t*, const wsrep_key_t*, size_t, wsrep_key_type_t, wsrep_bool_t);
    wsrep_status_t (*append_data)(wsrep_t*, wsrep_ws_handle_t*, const wsrep_buf_t*, size_t, wsrep_data_type_t, wsrep_bool_t);
    wsrep_status_t (*sync_wait)(wsrep_t*, wsrep_gtid_t*, int, wsrep_gtid_t*);
    wsrep_status_t (*last_committed_id)(wsrep_t*, wsrep_gtid_t*);
    wsrep_status_t (*free_connection)(wsrep_t*, wsrep_conn_id_t);
    wsrep_status_t (*to_execute_start)(wsrep_t*, wsrep_conn_id_t, const wsrep_key_t*, size_t, const wsrep_buf_t*, size_t, uint32_t, wsrep_trx_meta_t*);
    wsrep_status_t (*to_execute_end)(wsrep_t*, wsrep_conn_id_t, const wsrep_buf_t*);
    wsrep_status_t (*sst_sent)(wsrep_t*, const wsrep_gtid_t*, int);
    wsrep_status_t (*sst_received)(wsrep_t*, const wsrep_gtid_t*, const wsrep_buf_t*, int);
    struct wsrep_stats_var* (*stats_get)(wsrep_t*);
    void (*stats_free)(wsrep_t*, struct wsrep_stats_var*);
    void (*stats_reset)(wsrep_t*);
    wsrep_seqno_t (*pause)(wsrep_t*);
    wsrep_status_t (*resume)(wsrep_t*);
    wsrep_status_t (*desync)(wsrep_t*);
    wsrep_status_t (*resync)(wsrep_t*);
    const char* provider_name;
    const char* provider_version;
    const char* provider_vendor;
    void (*free)(wsrep_t*);
    void* dlh;
    void* ctx;
};
int wsrep_load(const char* spec, wsrep_t** hptr, wsrep_log_cb_t log_cb);
void wsrep_unload(wsrep_t* hptr);
#define WSREP_CERTIFY_V1 "wsrep_certify_v1"
typedef struct wsrep_seq_cb { void* ctx; void (*fn)(void*); } wsrep_seq_cb_t;
typedef wsrep_status_t (*wsrep_certify_fn_v1)(wsrep_t*, wsrep_conn_id_t, wsrep_ws_handle_t*, uint32_t, wsrep_trx_meta_t*, const wsrep_seq_cb_t*);
#ifdef __cplusplus
}
#endif
#endif
