#ifndef WSREP_NODE_ISOLATION_H
#define WSREP_NODE_ISOLATION_H
#include "wsrep_api.h"
enum wsrep_node_isolation_mode { WSREP_NODE_ISOLATION_NOT_ISOLATED, WSREP_NODE_ISOLATION_ISOLATED, WSREP_NODE_ISOLATION_FORCE_DISCONNECT };
enum wsrep_node_isolation_result { WSREP_NODE_ISOLATION_SUCCESS, WSREP_NODE_ISOLATION_INVALID_VALUE };
typedef enum wsrep_node_isolation_result (*wsrep_node_isolation_mode_set_fn_v1)(enum wsrep_node_isolation_mode);
#define WSREP_NODE_ISOLATION_MODE_SET_V1 "wsrep_node_isolation_mode_set_v1"
#endif
