/* A stand-in for a benchmark program: prints the measurements that the file
   "plan" in its directory gives for it, and adds the call to "log".

   The time of benchmark b in run r of a program is a function of the plan's
   seed, the name, the arguments, b and r, so that the script's caller can
   compute it as well. */
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t mix(uint64_t h, const char* s) {
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211u;
  return (h ^ 31) * 1099511628211u;
}

int main(int argc, char** argv) {
  char dir[4096], path[5000], line[8192];
  strcpy(dir, argv[0]);
  char* slash = strrchr(dir, '/');
  const char* me = slash ? slash + 1 : dir;
  uint64_t h = 1469598103934665603u;
  snprintf(path, sizeof path, "%s", me);
  h = mix(h, path);
  size_t n = snprintf(line, sizeof line, "%s", me);
  for (int i = 1; i < argc; ++i) {
    h = mix(h, argv[i]);
    n += snprintf(line + n, sizeof line - n, " %s", argv[i]);
  }
  line[n++] = '\n';
  if (slash) *slash = 0; else strcpy(dir, ".");
  snprintf(path, sizeof path, "%s/log", dir);
  int fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0 || write(fd, line, n) != (ssize_t)n) return 3;
  close(fd);
  /* which run of this program with these arguments is it? */
  snprintf(path, sizeof path, "%s/run-%016llx", dir, (unsigned long long)h);
  fd = open(path, O_RDWR | O_APPEND | O_CREAT, 0644);
  if (fd < 0) return 3;
  long run = lseek(fd, 0, SEEK_END);
  if (write(fd, ".", 1) != 1) return 3;
  close(fd);
  snprintf(path, sizeof path, "%s/plan", dir);
  FILE* f = fopen(path, "r");
  if (!f) return 3;
  unsigned long long seed;
  int kinds, six;
  if (!fgets(line, sizeof line, f) || sscanf(line, "%llu %d %d", &seed, &kinds, &six) != 3) return 3;
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    uint64_t v = mix(h ^ seed, line);
    v ^= (uint64_t)run * 0x9E3779B97F4A7C15u;
    v ^= v >> 29; v *= 0xBF58476D1CE4E5B9u; v ^= v >> 32;
    /* thousandths, as many digits as the plan says */
    uint64_t scale = 10;
    for (int k = 0; k < kinds; ++k) scale *= 10;
    if (six)
      printf("%s,%g\n", line, v % scale / 1000.0);
    else
      printf("%s,%llu.%03llu\n", line, (unsigned long long)(v % scale / 1000),
             (unsigned long long)(v % scale % 1000));
  }
  return 0;
}
