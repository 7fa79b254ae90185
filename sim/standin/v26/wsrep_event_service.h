#ifndef WSREP_EVENT_SERVICE_H
#define WSREP_EVENT_SERVICE_H
#include "wsrep_api.h"
typedef struct wsrep_event_context wsrep_event_context_t;
typedef struct wsrep_event_service_v1_st
{
    void (*event_cb)(wsrep_event_context_t*, const char*, const char*);
    wsrep_event_context_t* context;
} wsrep_event_service_v1_t;
#define WSREP_EVENT_SERVICE_INIT_FUNC_V1 "wsrep_init_event_service_v1"
#define WSREP_EVENT_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_event_service_v1"
#endif
