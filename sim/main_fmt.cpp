#include "runner.h"
Sim* fmtSim();
int main(int c, char** v) { return simMain(c, v, {fmtSim()}); }
