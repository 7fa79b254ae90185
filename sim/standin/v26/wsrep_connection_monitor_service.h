#ifndef WSREP_CONNECTION_MONITOR_SERVICE_H
#define WSREP_CONNECTION_MONITOR_SERVICE_H
#include "wsrep_api.h"
typedef struct wsrep_connection_monitor_context wsrep_connection_monitor_context_t;
typedef const void* wsrep_connection_key_t;
typedef struct wsrep_connection_monitor_service_v1_st
{
    void (*connection_monitor_connect_cb)(wsrep_connection_monitor_context_t*, wsrep_connection_key_t, const wsrep_buf_t*, const wsrep_buf_t*, const wsrep_buf_t*);
    void (*connection_monitor_disconnect_cb)(wsrep_connection_monitor_context_t*, wsrep_connection_key_t);
    void (*connection_monitor_ssl_info_cb)(wsrep_connection_monitor_context_t*, wsrep_connection_key_t, const wsrep_buf_t*, const wsrep_buf_t*, const wsrep_buf_t*, const wsrep_buf_t*);
    wsrep_connection_monitor_context_t* context;
} wsrep_connection_monitor_service_v1_t;
#define WSREP_CONNECTION_MONITOR_SERVICE_INIT_FUNC_V1 "wsrep_init_connection_monitor_service_v1"
#define WSREP_CONNECTION_MONITOR_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_connection_monitor_service_v1"
#endif
