// Simulated file calls: files whose name is registered are real scratch files
// whose open, read, write, seek and close calls go through a fault plan.
#ifndef SIM_IO_H
#define SIM_IO_H
#include <string>
#include <vector>
#include <cstdint>
namespace sim { namespace io {
enum What{W_ERROR,W_SHORT,W_EINTR,W_EOF,W_SHRINK,W_GROW};
struct Fault{
    std::string call;   // open read seek write close
    int nth=1;          // which call of that kind
    int times=1;        // consecutive calls; -1: all following
    int what=W_ERROR;
    long arg=0;         // error number, or byte count
};
struct Counters{ long opens=0,reads=0,writes=0,seeks=0,closes=0; long fired_hard=0,fired_benign=0; long delivered=0; long shrunk_to=-1; long read_complete=0; };
extern Counters n;
extern long full_at;                       // the disk accepts only so many bytes (-1: any)
void plan(const std::string& name,const std::vector<Fault>& f);   // starts simulation for files with this last path component
void stop();
bool hard(const Fault& f);
}}
#endif
