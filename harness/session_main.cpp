// The real program, its main() renamed.
#define main plotter_main
#include "src/chia_plot.cpp"
#undef main
int session_thread_multi() { return phase2::g_thread_multi; }
