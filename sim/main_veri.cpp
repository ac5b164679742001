#include "runner.h"
Sim* veriSim();
int main(int c, char** v) { return simMain(c, v, {veriSim()}); }
