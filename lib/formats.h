// The three readable formats: library reader and writer next to the independent emitter and parser.
#ifndef VERIF_FORMATS_H_
#define VERIF_FORMATS_H_
#include <functional>
#include "iges_reader.h"
#include "iges_writer.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "vtk_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"
#include "fmt.h"
using namespace mc;
using fmt::List;
using ref::R;

struct Format {
  const char *ext;
  int maxdim, maxpdim;
  R abs, rel;
  bool hom;
  int pad;  // coordinates every point has after reading
  int styles;
  std::function<std::string(const List &, int)> emit;
  std::function<std::string(const std::string &, List *)> parse;
  std::function<std::vector<std::any>(const char *)> read;
  std::function<void(const std::vector<std::any> &, const char *)> write;
  // the same with one object that is kept
  std::function<std::function<std::vector<std::any>(const char *)>()> reader;
  std::function<std::function<void(const std::vector<std::any> &, const char *)>()> writer;
};
template<class T> std::function<std::function<std::vector<std::any>(const char *)>()> KeepReader() {
  return [] { auto r = std::make_shared<T>(); return [r](const char *f) { return r->ReadFile(f); }; };
}
template<class T> std::function<std::function<void(const std::vector<std::any> &, const char *)>()> KeepWriter() {
  return [] { auto w = std::make_shared<T>(); return [w](const std::vector<std::any> &v, const char *f) { w->WriteFile(v, f); }; };
}
inline Format XML() {
  return {"xml", 4, 4, 5.1e-7L, 1e-12L, false, 0, 6, fmt::Xml, fmt::ParseXml, [](const char *f) { io::XMLReader r; return r.ReadFile(f); },
          [](const std::vector<std::any> &v, const char *f) { io::XMLWriter w; w.WriteFile(v, f); }, KeepReader<io::XMLReader>(), KeepWriter<io::XMLWriter>()};
}
inline Format IRIT() {
  return {"itd", 3, 4, 5.1e-7L, 1e-12L, true, 0, 5, fmt::Irit, fmt::ParseIrit, [](const char *f) { io::IRITReader r; return r.ReadFile(f); },
          [](const std::vector<std::any> &v, const char *f) { io::IRITWriter w; w.WriteFile(v, f); }, KeepReader<io::IRITReader>(), KeepWriter<io::IRITWriter>()};
}
inline Format IGES() {
  return {"iges", 2, 3, 0, 1e-13L, false, 3, 3, fmt::Iges, fmt::ParseIges, [](const char *f) { io::IGESReader r; return r.ReadFile(f); },
          [](const std::vector<std::any> &v, const char *f) { io::IGESWriter w; w.WriteFile(v, f); }, KeepReader<io::IGESReader>(), KeepWriter<io::IGESWriter>()};
}
inline std::string Compare(const std::vector<std::any> &got, const List &want, R abs, R rel, bool hom, int pad) {
  if (got.size() != want.size()) return S("%d splines instead of %d", (int) got.size(), (int) want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    std::string err;
    ref::Spline g = fmt::FromAny(got[i], &err);
    if (err.empty()) err = fmt::Diff(g, want[i], abs, rel, hom, pad);
    if (!err.empty()) return S("spline %d: ", (int) i) + err;
  }
  return "";
}
inline std::string Compare(const List &got, const List &want, R abs, R rel, bool hom, int pad) {
  if (got.size() != want.size()) return S("%d splines instead of %d", (int) got.size(), (int) want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    std::string err = fmt::Diff(got[i], want[i], abs, rel, hom, pad);
    if (!err.empty()) return S("spline %d: ", (int) i) + err;
  }
  return "";
}
#endif
