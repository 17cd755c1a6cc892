#include "unit.h"
#include "ffi0.rs.h"
using namespace st;
extern "C" { void t_seq(); void t_fmt(); void t_ord(); void t_let(); void t_stack(); void t_edge(); }
ST_MAIN({"seq", t_seq}, {"fmt", t_fmt}, {"ord", t_ord}, {"let", t_let}, {"stack", t_stack}, {"edge", t_edge})
