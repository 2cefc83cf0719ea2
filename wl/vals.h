// vals.h - a machine of slots with values, and operations on them.
#pragma once

#include "ob.h"

namespace vals {

enum { NSlots = 8, NShared = 6 };

// What all threads share and none may change.
struct Shared
{
    ob::A* a; ob::P* p; std::vector<ob::A>* va;
    reflect::Value* v[NShared];
};
extern Shared* shared;

void setup();     // sim
void teardown();  // sim

struct Machine
{
    ob::A own, other; ob::B ownB;
    reflect::Value* s[NSlots];
    long refTo[NSlots];                  // object that a slot's value is in, if it doesn't own it
    std::vector<reflect::Value> vec;
    reflect::Function* fn;
    bool faults;                         // arm faults during operations
    bool quiet;                          // no results as text
    explicit Machine(bool faults, bool quiet = false);
    ~Machine();

    std::string run(const h::Op& op);    // the result as text, in host memory
    void owned(std::vector< std::pair<const void*, int> >& out); // sim: objects that must exist
private:
    reflect::Value* operand(long k);     // null if it refers to something gone
    void put(int d, reflect::Value&& v);
    std::string text(const reflect::Value& v);
    void go(const h::Op& op, std::string& out);
};

void warm();                             // sim: everything has been used before
void gen(sim::Rng& rng, h::Plan& plan, int thread, int n, bool shared);

} // namespace vals
