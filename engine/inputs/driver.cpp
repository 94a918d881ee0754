// The input table code of the C++ runtime, reachable from outside. Compiled to LLVM IR for the symbolic run and natively (-DNATIVE) for replays.
#include <stdio.h>
#include <stdlib.h>
#include <iomanip>
#include <sstream>
#include <map>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <atomic>
#include <memory>
#include <string>
#include <vector>
#include "calcwit.cpp"
extern "C" {
int ran;
void setup(void *buf, Circom_Circuit *circ, HashSignalInfo *table, bool *flags, unsigned counter, FrElement *values) {
  Circom_CalcWit *c = (Circom_CalcWit *)buf;
  circ->InputHashMap = table;
  c->circuit = circ; c->inputSignalAssigned = flags; c->inputSignalAssignedCounter = counter; c->signalValues = values;
  ran = 0;
}
unsigned long sz_calc() { return sizeof(Circom_CalcWit); }
unsigned long sz_circ() { return sizeof(Circom_Circuit); }
unsigned long sz_fr() { return sizeof(FrElement); }
void probe_set(Circom_CalcWit *c, u64 h, unsigned i, FrElement *v) { c->setInputSignal(h, i, *v); }
u64 probe_size(Circom_CalcWit *c, u64 h) { return c->getInputSignalSize(h); }
unsigned probe_left(Circom_CalcWit *c) { return c->inputSignalAssignedCounter; }
int probe_ran() { return ran; }
u64 probe_hash(const char *p, unsigned long n) { return fnv1a(std::string(p, n)); }
}
void run(Circom_CalcWit *) { ran++; }
#ifdef NATIVE
#include <string.h>
// argv: n, n * (hash id size), start, ninputs, flags..., counter, hash, index
unsigned N_, START_, NIN_;
uint get_size_of_input_hashmap() { return N_; }
uint get_main_input_signal_start() { return START_; }
uint get_main_input_signal_no() { return NIN_; }
int main(int, char **a) {
  a++;
  N_ = atoi(*a++);
  HashSignalInfo *t = (HashSignalInfo *)calloc(N_, sizeof(HashSignalInfo));
  for (unsigned k = 0; k < N_; k++) { t[k].hash = strtoull(*a++, 0, 10); t[k].signalid = strtoull(*a++, 0, 10); t[k].signalsize = strtoull(*a++, 0, 10); }
  START_ = atoi(*a++); NIN_ = atoi(*a++);
  bool *f = (bool *)calloc(NIN_ + 64, 1);
  for (unsigned k = 0; k < NIN_; k++) f[k] = atoi(*a++);
  unsigned cnt = strtoul(*a++, 0, 10);
  unsigned ns = START_ + NIN_ + 64;
  FrElement *v = (FrElement *)calloc(ns, sizeof(FrElement));
  Circom_Circuit *circ = (Circom_Circuit *)calloc(1, sizeof(Circom_Circuit));
  void *buf = calloc(1, sizeof(Circom_CalcWit));
  setup(buf, circ, t, f, cnt, v);
  u64 h = strtoull(*a++, 0, 10); unsigned i = strtoul(*a++, 0, 10);
  FrElement x; memset(&x, 7, sizeof x);
  printf("size %llu\n", (unsigned long long)probe_size((Circom_CalcWit *)buf, h)); fflush(stdout);
  probe_set((Circom_CalcWit *)buf, h, i, &x);
  printf("left %u ran %d set", probe_left((Circom_CalcWit *)buf), ran);
  for (unsigned k = 0; k < ns; k++) if (!memcmp(&v[k], &x, sizeof x)) printf(" %u", k);
  printf(" flags");
  for (unsigned k = 0; k < NIN_; k++) printf(" %d", (int)f[k]);
  printf("\n");
}
#endif
