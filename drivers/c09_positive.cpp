namespace {
struct Row { int dim; int lim; };
Row rows[] = {{1024, 26}, {2048, 53}, {4096, 106}, {8192, 214}, {16384, 430}, {32768, 868}, {65536, 1747}, {131072, 3523}};
}
#include <cstdlib>
int good_table(int q, int m) {
  for (auto& r : rows) if (r.dim >= m && q <= r.lim) return r.dim;
  std::abort();
}
int good_index(int q, int m) {
  int i = 0;
  while (i < 8) {
    if (rows[i].dim < m || rows[i].lim < q) { ++i; continue; }
    return rows[i].dim;
  }
  std::abort();
}
int bad_strict(int q, int m) {
  for (auto& r : rows) { if (r.dim < m) continue; if (r.lim > q) return r.dim; }
  std::abort();
}
int bad_last(int q, int m) {
  for (auto& r : rows) { if (r.dim < m) continue; if (r.lim >= q) return r.dim; }
  return 131072;
}
int bad_max(int q, int m) {
  for (auto& r : rows) if (r.lim >= q) return r.dim > m ? r.dim : m;
  std::abort();
}
