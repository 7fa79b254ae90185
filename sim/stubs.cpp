// Entry points which load a real provider library; simulated runs inject a
// provider through server_state::set_provider_factory() and never get here.
#include <cstdio>
#include <cstdlib>
extern "C"
{
    void sim_stub_v26(void) __asm__("_ZN5wsrep18wsrep_provider_v26C1ERNS_12server_stateERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_RKNS_8provider8servicesE");
    void sim_stub_v26(void) { fputs("real provider loaded in simulation\n", stderr); abort(); }
}
