#include "RNTuple.hxx"
