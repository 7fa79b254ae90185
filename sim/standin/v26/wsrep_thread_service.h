#ifndef WSREP_THREAD_SERVICE_H
#define WSREP_THREAD_SERVICE_H
#include "wsrep_api.h"
#include <sched.h>
#include <time.h>
typedef struct wsrep_thread_key_st wsrep_thread_key_t;
typedef struct wsrep_thread_st wsrep_thread_t;
typedef struct wsrep_mutex_key_st wsrep_mutex_key_t;
typedef struct wsrep_mutex_st wsrep_mutex_t;
typedef struct wsrep_cond_key_st wsrep_cond_key_t;
typedef struct wsrep_cond_st wsrep_cond_t;
typedef struct wsrep_thread_service_v1_st
{
    const wsrep_thread_key_t* (*thread_key_create_cb)(const char*);
    int (*thread_create_cb)(const wsrep_thread_key_t*, wsrep_thread_t**, void* (*)(void*), void*);
    int (*thread_detach_cb)(wsrep_thread_t*);
    int (*thread_equal_cb)(wsrep_thread_t*, wsrep_thread_t*);
    void (*thread_exit_cb)(wsrep_thread_t*, void*);
    int (*thread_join_cb)(wsrep_thread_t*, void**);
    wsrep_thread_t* (*thread_self_cb)(void);
    int (*thread_setschedparam_cb)(wsrep_thread_t*, int, const struct sched_param*);
    int (*thread_getschedparam_cb)(wsrep_thread_t*, int*, struct sched_param*);
    const wsrep_mutex_key_t* (*mutex_key_create_cb)(const char*);
    wsrep_mutex_t* (*mutex_init_cb)(const wsrep_mutex_key_t*, void*, size_t);
    int (*mutex_destroy_cb)(wsrep_mutex_t*);
    int (*mutex_lock_cb)(wsrep_mutex_t*);
    int (*mutex_trylock_cb)(wsrep_mutex_t*);
    int (*mutex_unlock_cb)(wsrep_mutex_t*);
    const wsrep_cond_key_t* (*cond_key_create_cb)(const char*);
    wsrep_cond_t* (*cond_init_cb)(const wsrep_cond_key_t*, void*, size_t);
    int (*cond_destroy_cb)(wsrep_cond_t*);
    int (*cond_wait_cb)(wsrep_cond_t*, wsrep_mutex_t*);
    int (*cond_timedwait_cb)(wsrep_cond_t*, wsrep_mutex_t*, const struct timespec*);
    int (*cond_signal_cb)(wsrep_cond_t*);
    int (*cond_broadcast_cb)(wsrep_cond_t*);
} wsrep_thread_service_v1_t;
#define WSREP_THREAD_SERVICE_INIT_FUNC_V1 "wsrep_init_thread_service_v1"
#define WSREP_THREAD_SERVICE_DEINIT_FUNC_V1 "wsrep_deinit_thread_service_v1"
#endif
