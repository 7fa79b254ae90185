/* Assertion failures of the code under test end the simulated run and are
 * reported as a violation with the schedule that led to them. */
#undef assert
#ifdef __cplusplus
extern "C"
#endif
void sim_assert_fail(const char*, const char*, int, const char*)
    __attribute__((noreturn));
#define assert(e) ((e) ? (void)0 : \
    sim_assert_fail(#e, __FILE__, __LINE__, __PRETTY_FUNCTION__))
