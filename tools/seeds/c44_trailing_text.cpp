#include "argparseUtils.h"
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
static bool accepted(const char* s) {
  const pid_t p = fork();
  if (!p) {
    fclose(stderr);
    parseSizeOrExit(s);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
int main() {
  for (const char* s : {"2-4", "1x", "3 ", "7.", "0x1", " 1", "", "-1", "+1", "18446744073709551616"})
    if (accepted(s)) {
      std::printf("FAILED: '%s' is taken as a number\n", s);
      return 1;
    }
  if (!accepted("0") || !accepted("42") || parseSizeOrExit("42") != 42 || parseSizeOrExit("007") != 7) {
    std::printf("FAILED: numbers are refused\n");
    return 1;
  }
}
