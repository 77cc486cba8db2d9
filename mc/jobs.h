#pragma once
struct JobWorld;
enum { JOBS = 16 };
const char * job_name(int j);
int job_steps(int j);
JobWorld * jw_new(int n, const int * kinds, const char * prefix);
void jw_step(JobWorld *, int i, int k, char * out, unsigned cap);      // appends to out
void jw_delete(JobWorld *);
// one object, several threads that only ask
struct SharedWorld;
enum { SHARED_KINDS = 6 };
int shared_queries(int kind);
const char * shared_query(int kind, int q);
const char * shared_kind(int kind);
SharedWorld * sh_new(int kind, int variant, const char * prefix);
void sh_ask(SharedWorld *, int q, char * out, unsigned cap);           // appends to out
void sh_delete(SharedWorld *);
