// gen.h - a family of types whose registration code is decided by the plan, and
// descriptions of types in canonical form.
#pragma once

#include "reflect.h"
#include "dsl/all.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/smart_ptr.h"
#include "types/std/map.h"
#include "../sim/plan.h"

namespace gen {

enum { N = 8 };

template<int I> struct Gen { int64_t v; Gen() : v(I) {} };
template<typename T> struct Box { T v; };

std::string genId(int i);
void registration(int i, reflect::Type* type); // what Reflect<Gen<i>>::reflect does

// Steps of the registration code of one type. Host memory.
struct Step { std::string what, name; long kind, j, value; };
struct State
{
    const h::Plan* plan;
    std::vector<Step> steps[N];
    int runs[N], fails[N], done[N];
    bool depth;
    std::map<std::string, const reflect::Type*> ptr; // identity of descriptors
    std::map<std::string, std::string> expect;       // descriptions according to the reference run
    std::map<std::string, std::string> seen;
    bool checkIdentity, recording, multi;
};
extern State* st;
extern void (*userStep)(long kind, long j);  // what steps "user" do

void begin(const h::Plan& plan);           // host: parse the description ops
void registerAll();                        // sim: what static loaders do
std::string model(int i);                  // host: expected description of Gen<i>

// ---- sim ----
std::string describe(const reflect::Type* t); // canonical description via public accessors
std::string notPrinted(const reflect::Type* t); // what print() doesn't show of that, or nothing
void identify(const reflect::Type* t);     // two descriptors for one type?
void identifyAll(const reflect::Type* t);  // for everything t refers to
enum { NRoutes = 16 };
const reflect::Type* lookup(int route, int j);
std::string routeId(int route, int j);     // host: the id of the type the route yields
void closure(std::vector<const reflect::Type*>& todo, bool primitives); // everything reachable

void genSteps(sim::Rng& rng, h::Plan& plan, int n, bool cyclic, int density); // generator
std::string routeName(int route);
bool leaf(const std::string& id);          // primitive or string

} // namespace gen

namespace reflect {
template<int I> struct Reflect< gen::Gen<I> >
{
    typedef gen::Gen<I> T_;
    static std::string id() { return gen::genId(I); }
    static void loader() {}
    static void reflect(Type* type) { gen::registration(I, type); }
};
} // namespace reflect

reflectTemplate(gen::Box, ValueT)
{
    reflectPlumbing();
    reflectField(v);
    reflectTypeValue(valueType, type<ValueT>());
}
