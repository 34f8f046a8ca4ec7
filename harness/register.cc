// Makes the tools use the Dysco they were compiled with (see common.h).
#include "common.h"
bool vfRegister = vfDmInit;
