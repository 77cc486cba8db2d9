// Instrumented: the jobs of C12 run in the threads of engine A.
#include "jobs_impl.hpp"
#include "rt.h"
#include "jobs.h"
#include <cstring>
static_assert((int)JOBS == (int)jobs::NJOB, "");
struct JobWorld { SoDa::Format base; std::unique_ptr<jobs::Job> j[4]; JobWorld() : base("%0 and %1; %2") { base.addS("base"); } };
const char * job_name(int j) { return jobs::name(j); }
int job_steps(int j) { static const int n[] = {9, 6, 6, 5, 8, 4, 5, 8}; return n[j / 2]; }
JobWorld * jw_new(int n, const int * kinds, const char * prefix) {
  rt::Track tr; JobWorld * w = new JobWorld; std::string p = prefix;
  for (int i = 0; i < n; i++) w->j[i].reset(jobs::make(kinds[i], w->base, p));
  return w;
}
void jw_step(JobWorld * w, int i, int k, char * out, unsigned cap) {
  rt::Track tr; std::string s;
  try { w->j[i]->step(k, s); } catch (std::exception & e) { s = std::string("exception ") + e.what(); } catch (...) { s = "exception"; }
  size_t n = strlen(out); if (n + s.size() + 1 < cap) memcpy(out + n, s.c_str(), s.size() + 1);
}
void jw_delete(JobWorld * w) { rt::Track tr; delete w; }
const char * job_yaml(int v) { return jobs::yaml(v); }
