// Captures what is written to the C stream stderr; sanitizers write to the
// file descriptor and are not affected.
#ifndef CAPTURE_H
#define CAPTURE_H
#include <cstdio>
#include <cstdlib>
#include <string>
struct Capture {
  Capture(): text(0), size(0), old(stderr) {stderr = open_memstream(&text, &size);}
  std::string stop() {
    if (!old) return got;
    fclose(stderr);
    stderr = old;
    old = 0;
    got.assign(text, size);
    free(text);
    return got;
  }
  ~Capture() {stop();}
  char* text; size_t size; FILE* old; std::string got;
};
#endif
