#include "runner.h"
Sim* bankSim();
int main(int c, char** v) { return simMain(c, v, {bankSim()}); }
