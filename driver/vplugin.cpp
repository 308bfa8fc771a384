// Oclgrind plugin used by the conformance checks: records what happens inside
// the library (through the public plugin interface) into a buffer that the
// driver fetches, and can perturb the schedule of the worker threads.
#include "core/common.h"

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>

#include "core/Context.h"
#include "core/Kernel.h"
#include "core/KernelInvocation.h"
#include "core/Memory.h"
#include "core/Plugin.h"
#include "core/WorkGroup.h"
#include "core/WorkItem.h"

#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

using namespace oclgrind;

enum
{
  HOST_MEM = 1,
  KERNELS = 2,
  ALLOCS = 4,
  MAPS = 8,
  WI_MEM = 16,
  GROUPS = 32,
  ITEMS = 64,
  MESSAGES = 128,
  INSTS = 256,
  ATOMICS = 512,
  PERTURB = 1024,
  WG_MEM = 2048,
  OPCODES = 4096,
  HISTO = 8192,
};

static std::mutex g_mutex;
static std::string g_log;
static std::atomic<unsigned> g_mode(0);
static std::atomic<unsigned> g_seed(1);
static std::atomic<unsigned> g_nthread(0);

static void put(const char* fmt, ...)
{
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  std::lock_guard<std::mutex> g(g_mutex);
  g_log.append(buf, std::min<size_t>(n, sizeof buf - 1));
  g_log.push_back('\n');
}

static thread_local unsigned t_rng = 0;
static thread_local unsigned t_id = 0;
static unsigned rnd()
{
  if (!t_rng)
  {
    t_id = ++g_nthread;
    t_rng = g_seed * 2654435761u + t_id * 40503u + 1;
  }
  t_rng ^= t_rng << 13;
  t_rng ^= t_rng >> 17;
  t_rng ^= t_rng << 5;
  return t_rng;
}
static void perturb()
{
  if (!(g_mode & PERTURB))
    return;
  unsigned r = rnd() & 63;
  if (r < 6)
    std::this_thread::yield();
  else if (r == 7)
    std::this_thread::sleep_for(std::chrono::microseconds(rnd() % 200));
}

static size_t tid()
{
  return std::hash<std::thread::id>()(std::this_thread::get_id());
}

class VPlugin : public Plugin
{
public:
  VPlugin(const Context* c) : Plugin(c)
  {
    static std::atomic<unsigned> n(0);
    m_id = n++;
  }
  unsigned m_id; // number of the context, last field of some records

  void hostMemoryLoad(const Memory* m, size_t a, size_t s) override
  {
    if (g_mode & HOST_MEM)
      put("hl %u %zx %zu", m->getAddressSpace(), a, s);
  }
  void hostMemoryStore(const Memory* m, size_t a, size_t s,
                       const uint8_t*) override
  {
    if (g_mode & HOST_MEM)
      put("hs %u %zx %zu", m->getAddressSpace(), a, s);
  }
  void kernelBegin(const KernelInvocation* k) override
  {
    if (g_mode & KERNELS)
      put("kb %s %u", k->getKernel()->getName().c_str(), m_id);
  }
  // how often every instruction was executed
  std::mutex m_hmutex;
  std::unordered_map<const llvm::Instruction*, size_t> m_histo;
  void histogram()
  {
    std::map<std::string, std::pair<size_t, size_t>> h;
    for (auto& e : m_histo)
    {
      const llvm::Instruction* i = e.first;
      std::string name = i->getOpcodeName();
      size_t bytes = 0;
      static const char* spaces[] = {"private", "global", "constant", "local"};
      const llvm::DataLayout& dl = i->getModule()->getDataLayout();
      if (auto l = llvm::dyn_cast<llvm::LoadInst>(i))
      {
        name += std::string(" ") + spaces[l->getPointerAddressSpace() & 3];
        bytes = dl.getTypeAllocSize(l->getType());
      }
      else if (auto s = llvm::dyn_cast<llvm::StoreInst>(i))
      {
        name += std::string(" ") + spaces[s->getPointerAddressSpace() & 3];
        bytes = dl.getTypeAllocSize(s->getValueOperand()->getType());
      }
      else if (auto c = llvm::dyn_cast<llvm::CallInst>(i))
      {
        if (c->getCalledFunction())
          name += " " + c->getCalledFunction()->getName().str() + "()";
      }
      auto& x = h[name];
      x.first += e.second;
      x.second += e.second * bytes;
    }
    for (auto& e : h)
      put("hi %zu %zu %s", e.second.first, e.second.second, e.first.c_str());
    m_histo.clear();
  }
  void kernelEnd(const KernelInvocation* k) override
  {
    if (g_mode & HISTO)
      histogram();
    if (g_mode & KERNELS)
      put("ke %s %u", k->getKernel()->getName().c_str(), m_id);
  }
  void log(MessageType t, const char* msg) override
  {
    if (g_mode & MESSAGES)
    {
      std::string s("m ");
      s += std::to_string((int)t) + " ";
      for (const char* p = msg; *p; p++)
      {
        if (*p == '\n')
          s += "\\n";
        else
          s += *p;
      }
      std::lock_guard<std::mutex> g(g_mutex);
      g_log += s + "\n";
    }
  }
  void memoryAllocated(const Memory* m, size_t a, size_t s, cl_mem_flags f,
                       const uint8_t*) override
  {
    if ((g_mode & ALLOCS) && m->getAddressSpace() == AddrSpaceGlobal)
      put("al %zx %zu %lu %p", a, s, (unsigned long)f, (const void*)m);
  }
  void memoryDeallocated(const Memory* m, size_t a) override
  {
    if ((g_mode & ALLOCS) && m->getAddressSpace() == AddrSpaceGlobal)
      put("de %zx %p", a, (const void*)m);
  }
  static void where(const WorkItem* w, size_t& g)
  {
    g = w ? w->getGlobalIndex() : (size_t)-1;
  }
  void memoryLoad(const Memory* m, const WorkItem* w, size_t a,
                  size_t s) override
  {
    perturb();
    if (g_mode & WI_MEM)
      put("l %u %zu %zx %zu", m->getAddressSpace(), w->getGlobalIndex(), a, s);
  }
  void memoryStore(const Memory* m, const WorkItem* w, size_t a, size_t s,
                   const uint8_t*) override
  {
    perturb();
    if (g_mode & WI_MEM)
      put("s %u %zu %zx %zu", m->getAddressSpace(), w->getGlobalIndex(), a, s);
  }
  void memoryLoad(const Memory* m, const WorkGroup*, size_t a,
                  size_t s) override
  {
    if (g_mode & WG_MEM)
      put("gl %u %zx %zu", m->getAddressSpace(), a, s);
  }
  void memoryStore(const Memory* m, const WorkGroup*, size_t a, size_t s,
                   const uint8_t*) override
  {
    if (g_mode & WG_MEM)
      put("gs %u %zx %zu", m->getAddressSpace(), a, s);
  }
  void memoryAtomicLoad(const Memory* m, const WorkItem* w, AtomicOp op,
                        size_t a, size_t s) override
  {
    perturb();
    if (g_mode & ATOMICS)
      put("xl %u %zu %d %zx %zu", m->getAddressSpace(), w->getGlobalIndex(),
          (int)op, a, s);
  }
  void memoryAtomicStore(const Memory* m, const WorkItem* w, AtomicOp op,
                         size_t a, size_t s) override
  {
    if (op != AtomicCmpXchg)
      perturb();
    if (g_mode & ATOMICS)
      put("xs %u %zu %d %zx %zu", m->getAddressSpace(), w->getGlobalIndex(),
          (int)op, a, s);
  }
  void memoryMap(const Memory* m, size_t a, size_t o, size_t s,
                 cl_map_flags f) override
  {
    if (g_mode & MAPS)
      put("mm %zx %zu %zu %lu", a, o, s, (unsigned long)f);
  }
  void memoryUnmap(const Memory* m, size_t a, const void* p) override
  {
    if (g_mode & MAPS)
      put("mu %zx", a);
  }
  void workGroupBegin(const WorkGroup* g) override
  {
    perturb();
    if (g_mode & GROUPS)
    {
      Size3 id = g->getGroupID(), sz = g->getGroupSize();
      put("gb %zu %zu %zu %zu %zu %zu %zu %u", id.x, id.y, id.z, sz.x, sz.y,
          sz.z, tid(), m_id);
    }
  }
  void workGroupBarrier(const WorkGroup* g, uint32_t flags) override
  {
    if (g_mode & GROUPS)
    {
      Size3 id = g->getGroupID();
      put("ga %zu %zu %zu %u %zu", id.x, id.y, id.z, flags, tid());
    }
  }
  void workGroupComplete(const WorkGroup* g) override
  {
    if (g_mode & GROUPS)
    {
      Size3 id = g->getGroupID();
      put("gc %zu %zu %zu %zu %u", id.x, id.y, id.z, tid(), m_id);
    }
  }
  void workItemBegin(const WorkItem* w) override
  {
    perturb();
    if (g_mode & ITEMS)
    {
      Size3 id = w->getGlobalID(), l = w->getLocalID(),
            g = w->getWorkGroup()->getGroupID();
      put("ib %zu %zu %zu %zu %zu %zu %zu %zu %zu %zu %u", id.x, id.y, id.z,
          l.x, l.y, l.z, g.x, g.y, g.z, tid(), m_id);
    }
  }
  void workItemComplete(const WorkItem* w) override
  {
    perturb();
    if (g_mode & ITEMS)
    {
      Size3 id = w->getGlobalID();
      put("ic %zu %zu %zu %zu %u", id.x, id.y, id.z, tid(), m_id);
    }
  }
  void instructionExecuted(const WorkItem* w, const llvm::Instruction* i,
                           const TypedValue&) override
  {
    if (g_mode & HISTO)
    {
      std::lock_guard<std::mutex> g(m_hmutex);
      m_histo[i]++;
    }
    if (g_mode & OPCODES)
      put("op %zu %s", w->getGlobalIndex(), i->getOpcodeName());
    if (g_mode & INSTS)
    {
      unsigned line = 0;
      if (i->getDebugLoc())
        line = i->getDebugLoc().getLine();
      put("in %zu %u %s %s", w->getGlobalIndex(), line,
          i->getFunction()->getName().str().c_str(), i->getOpcodeName());
    }
  }
  bool isThreadSafe() const override
  {
    return true;
  }
};

static std::mutex p_mutex;
static std::list<std::pair<Context*, VPlugin*>> g_plugins;

extern "C"
{
void initializePlugins(Context* c)
{
  std::lock_guard<std::mutex> g(p_mutex);
  VPlugin* p = new VPlugin(c);
  g_plugins.push_back({c, p});
  c->registerPlugin(p);
}
void releasePlugins(Context* c)
{
  std::lock_guard<std::mutex> g(p_mutex);
  for (auto i = g_plugins.begin(); i != g_plugins.end(); ++i)
    if (i->first == c)
    {
      c->unregisterPlugin(i->second);
      delete i->second;
      g_plugins.erase(i);
      return;
    }
}
void vp_mode(unsigned m)
{
  g_mode = m;
}
void vp_seed(unsigned s)
{
  g_seed = s ? s : 1;
}
void vp_log(const char* s)
{
  std::lock_guard<std::mutex> g(g_mutex);
  g_log += s;
  g_log += "\n";
}
size_t vp_size()
{
  std::lock_guard<std::mutex> g(g_mutex);
  return g_log.size();
}
// Moves the log into out (of at least vp_size() bytes) and clears it.
size_t vp_fetch(char* out, size_t max)
{
  std::lock_guard<std::mutex> g(g_mutex);
  size_t n = std::min(max, g_log.size());
  memcpy(out, g_log.data(), n);
  g_log.clear();
  return n;
}
}
