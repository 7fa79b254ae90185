#ifndef WSREP_TLS_SERVICE_H
#define WSREP_TLS_SERVICE_H
#include "wsrep_api.h"
typedef struct wsrep_tls_context wsrep_tls_context_t;
typedef struct wsrep_tls_stream_st { int fd; void* opaque; } wsrep_tls_stream_t;
enum wsrep_tls_result { wsrep_tls_result_success = 0, wsrep_tls_result_want_read, wsrep_tls_result_want_write, wsrep_tls_result_eof, wsrep_tls_result_error };
typedef struct wsrep_tls_service_v1_st
{
    int (*stream_init)(wsrep_tls_context_t*, wsrep_tls_stream_t*);
    void (*stream_deinit)(wsrep_tls_context_t*, wsrep_tls_stream_t*);
    int (*stream_get_error_number)(wsrep_tls_context_t*, const wsrep_tls_stream_t*);
    const void* (*stream_get_error_category)(wsrep_tls_context_t*, const wsrep_tls_stream_t*);
    enum wsrep_tls_result (*stream_client_handshake)(wsrep_tls_context_t*, wsrep_tls_stream_t*);
    enum wsrep_tls_result (*stream_server_handshake)(wsrep_tls_context_t*, wsrep_tls_stream_t*);
    enum wsrep_tls_result (*stream_read)(wsrep_tls_context_t*, wsrep_tls_stream_t*, void*, size_t, size_t*);
    enum wsrep_tls_result (*stream_write)(wsrep_tls_context_t*, wsrep_tls_stream_t*, const void*, size_t, size_t*);
    enum wsrep_tls_result (*stream_shutdown)(wsrep_tls_context_t*, wsrep_tls_stream_t*);
    const char* (*error_message_get)(wsrep_tls_context_t*, const wsrep_tls_stream_t*, int, const void*);
    wsrep_tls_context_t* context;
} wsrep_tls_service_v1_t;
#define WSREP_TLS_SERVICE_INIT_FUNC_V1 "wsrep_init_tls_service_v1"
#define WSREP_TLS_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_tls_service_v1"
#endif
