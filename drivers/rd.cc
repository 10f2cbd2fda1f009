// Reads model files with the library and prints what it got.
#include <stdio.h>
#include <string>
#include <vector>
#include "am.h"
#include "fst.h"
#include "nnet.h"
#include "util.h"
#include "vector.h"
using namespace pocketkaldi;
static int Fail(const Status &s) { printf("FAIL %s\n", s.what().c_str()); return 0; }
template <class T> static int Vec(const char *path, const char *fmt) {
  util::ReadableFile fd; Status s = fd.Open(path); Vector<T> v; if (s.ok()) s = v.Read(&fd); if (!s.ok()) return Fail(s);
  printf("OK %d\n", v.Dim()); for (int i = 0; i < v.Dim(); ++i) printf(fmt, v(i)); return 0;
}
int main(int argc, char **argv) {
  std::string k = argc > 2 ? argv[1] : "";
  if (k == "f") return Vec<float>(argv[2], "%a\n");
  if (k == "i") return Vec<int32_t>(argv[2], "%d\n");
  if (k == "lm") {
    util::ReadableFile fd; Status s = fd.Open(argv[2]); LmFst f; if (s.ok()) s = f.Read(&fd); if (!s.ok()) return Fail(s);
    int n = atoi(argv[3]); printf("OK %d\n", f.StartState());
    Fst g; util::ReadableFile fd2; s = fd2.Open(argv[2]); if (s.ok()) s = g.Read(&fd2); if (!s.ok()) return Fail(s);
    for (int i = 0; i < n; ++i) { printf("state %a\n", g.Final(i)); Fst::ArcIterator it = g.IterateArcs(i); while (const FstArc *a = it.Next()) printf("arc %d %d %d %a\n", a->next_state, a->input_label, a->output_label, a->weight); }
    // every single arc through the lookup
    for (int i = 0; i < n; ++i) { Fst::ArcIterator it = g.IterateArcs(i); while (const FstArc *a = it.Next()) { FstArc b; if (!g.GetArc(i, a->input_label, &b) || b.input_label != a->input_label) printf("lookup of %d at %d fails\n", a->input_label, i); } }
    return 0;
  }
  if (k == "am") {   // conf rows cols, features on stdin
    Configuration conf; Status s = conf.Read(argv[2]); AcousticModel am; if (s.ok()) s = am.Read(conf); if (!s.ok()) return Fail(s);
    int rows = atoi(argv[3]), cols = atoi(argv[4]); printf("OK %d %d\n", am.num_pdfs(), am.TransitionPdfIdMap().Dim()); for (int i = 0; i < am.TransitionPdfIdMap().Dim(); ++i) printf("%d\n", am.TransitionPdfIdMap()(i));
    AcousticModel::Instance inst; Matrix<float> o;
    for (int t = 0; t <= rows; ++t) {
      if (t < rows) { Vector<float> v(cols); for (int i = 0; i < cols; ++i) { double x; if (scanf("%lf", &x) != 1) return 9; v(i) = (float)x; } am.Process(&inst, v, &o); } else am.EndOfStream(&inst, &o);
      for (int r = 0; r < o.NumRows(); ++r) { printf("row"); for (int i = 0; i < o.NumCols(); ++i) printf(" %a", o(r, i)); puts(""); }
    }
    return 0;
  }
  return 8;
}
