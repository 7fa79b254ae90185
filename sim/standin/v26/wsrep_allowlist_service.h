#ifndef WSREP_ALLOWLIST_SERVICE_H
#define WSREP_ALLOWLIST_SERVICE_H
#include "wsrep_api.h"
typedef struct wsrep_allowlist_context wsrep_allowlist_context_t;
typedef enum { WSREP_ALLOWLIST_KEY_IP = 0, WSREP_ALLOWLIST_KEY_SSL } wsrep_allowlist_key_t;
typedef struct wsrep_allowlist_service_v1_st
{
    wsrep_status_t (*allowlist_cb)(wsrep_allowlist_context_t*, wsrep_allowlist_key_t, const wsrep_buf_t*);
    wsrep_allowlist_context_t* context;
} wsrep_allowlist_service_v1_t;
#define WSREP_ALLOWLIST_SERVICE_INIT_FUNC_V1 "wsrep_init_allowlist_service_v1"
#define WSREP_ALLOWLIST_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_allowlist_service_v1"
#endif
