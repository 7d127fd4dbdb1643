// File operations and Exodus calls of the code under test, numbered, recorded and made to fail or to be the last.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace faults {
struct Op
{
  char     kind;  // 'o' open, 'c' create/truncating open, 'r' read, 'w' write, 's' seek, 'x' close, 't' truncate, 'f' sync, 'u' unlink, 'n' rename, 'E' Exodus call
  int      len;
  char     file[40];   // last path component, or the Exodus function
};
struct Config
{
  enum Mode { RECORD, KILL, EXFAIL, SYSFAIL } mode = RECORD;
  uint64_t index   = 0;      // which operation
  int      prefix  = 0;      // KILL, SYSFAIL: bytes of a write that reach the file
  int      err     = 0;      // SYSFAIL: errno; EXFAIL: the negative value returned
  bool     perform = false;  // EXFAIL: the call is carried out all the same
  bool     sticky  = false;  // SYSFAIL: every later operation of the same kind fails too
};
struct Closed
{
  char file[60];
  int  n;  // completed time planes
};
struct Shared
{
  uint64_t nsys, nex;
  bool     fired;
  int      ex_errors;          // Exodus calls that returned a negative value to the code under test
  char     first_error[60];
  char     during[40];         // the Exodus call that was under way when the fault struck
  int      during_ret;         // and what it returned
  int      nclosed;
  Closed   closed[16];
  uint64_t nops;
  Op       ops[60000];
};
Shared* shared();                 // of this process and its children
void    unshare();                // in a worker: a record of its own
void    arm(const Config& c);     // in the child, before the run
void    reset();                  // in the parent, before forking
int     planes(const std::string& file);  // time planes whose writing was complete: the file was closed after them, or the next one was begun
}  // namespace faults
