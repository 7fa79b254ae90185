#ifndef WSREP_CONFIG_SERVICE_H
#define WSREP_CONFIG_SERVICE_H
#include "wsrep_api.h"
#define WSREP_PARAM_DEPRECATED (1 << 0)
#define WSREP_PARAM_READONLY (1 << 1)
#define WSREP_PARAM_TYPE_BOOL (1 << 2)
#define WSREP_PARAM_TYPE_INTEGER (1 << 3)
#define WSREP_PARAM_TYPE_DOUBLE (1 << 4)
#define WSREP_PARAM_TYPE_MASK (WSREP_PARAM_TYPE_BOOL | WSREP_PARAM_TYPE_INTEGER | WSREP_PARAM_TYPE_DOUBLE)
typedef struct wsrep_parameter
{
    int flags;
    const char* name;
    union { bool as_bool; int64_t as_integer; double as_double; const char* as_string; } value;
} wsrep_parameter_t;
typedef wsrep_status_t (*wsrep_get_parameters_cb)(const wsrep_parameter_t*, void*);
typedef struct wsrep_config_service_v1_st
{
    wsrep_status_t (*get_parameters)(wsrep_t*, wsrep_get_parameters_cb, void*);
} wsrep_config_service_v1_t;
#define WSREP_CONFIG_SERVICE_INIT_FUNC_V1 "wsrep_init_config_service_v1"
#define WSREP_CONFIG_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_config_service_v1"
#endif
