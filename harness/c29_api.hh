#ifndef C29_API_HH
#define C29_API_HH
#include <vector>
#include <string>
#include "c31_api.hh"
typedef std::vector<double> Res;
struct World; // objects shared by the threads, made of library objects
World* c29_world(); void c29_free(World*);
int c29_shared_ops(); const char* c29_shared_name(int op); void c29_shared(const World&, int op, Res& out);
// disjoint parts of one object: kind of object x the way it is divided, and what is written to one part
struct Whole; int c29_kinds(); const char* c29_kind_name(int k); Whole* c29_whole(int k); void c29_free(Whole*); int c29_writers(int k); const char* c29_writer_name(int k, int w); void c29_write(Whole&, int k, int part, int w); void c29_dump(const Whole&, Res&);
void c31_run_0(c31::Ch&, std::vector<double>&, std::vector<std::string>&);
#endif
