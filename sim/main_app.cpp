#include "runner.h"
Sim *appSim(), *ioSim(), *veriSim(), *natSim();
int main(int c, char** v) { return simMain(c, v, {appSim(), ioSim(), veriSim(), natSim()}); }
