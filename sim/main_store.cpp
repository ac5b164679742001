#include "runner.h"
Sim* storeSim();
int main(int c, char** v) { return simMain(c, v, {storeSim()}); }
