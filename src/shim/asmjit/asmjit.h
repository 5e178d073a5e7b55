// A stand-in for the part of asmjit that Centaurus uses: it encodes the same instructions, natively, for x86-64.
// (The submodule /repo/asmjit is empty and cannot be fetched here.) Misuse is an error where asmjit's would be a silent return code.
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace asmjit
{
typedef uint32_t Error;
enum : Error { kErrorOk = 0, kErrorInvalidState = 1 };
enum { kAlignCode = 0, kAlignData = 1, kAlignZero = 2 };
enum { kInvalidValue = 0xFFFFFFFFu };

[[noreturn]] inline void shim_error(const std::string& what) { throw std::runtime_error("code generation: " + what); }

union Data128
{
  int8_t sb[16]; uint8_t ub[16]; int16_t sw[8]; uint16_t uw[8]; int32_t sd[4]; uint32_t ud[4]; int64_t sq[2]; uint64_t uq[2]; float sf[4]; double df[2];
};
union Data64
{
  int8_t sb[8]; uint8_t ub[8]; int16_t sw[4]; uint16_t uw[4]; int32_t sd[2]; uint32_t ud[2]; int64_t sq; uint64_t uq;
};

class Zone
{
public:
  explicit Zone(size_t, size_t = 0) {}
  void reset(bool = false) {}
};

class Logger { public: virtual ~Logger() {} };
class StringLogger : public Logger
{
  std::string m_text;
public:
  const char *getString() const { return m_text.c_str(); }
  void clearString() { m_text.clear(); }
};
class FileLogger : public Logger { public: explicit FileLogger(FILE * = nullptr) {} };
class CodeEmitter;
class ErrorHandler
{
public:
  virtual ~ErrorHandler() {}
  virtual bool handleError(Error err, const char *message, CodeEmitter *origin) = 0;
};
struct CodeInfo {};

class Label
{
  uint32_t m_id = kInvalidValue;
public:
  Label() {}
  explicit Label(uint32_t id) : m_id(id) {}
  uint32_t getId() const { return m_id; }
  bool isValid() const { return m_id != kInvalidValue; }
};

class Imm
{
  int64_t m_value;
public:
  template<typename T, typename = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type>
  Imm(T v) : m_value(static_cast<int64_t>(v)) {}
  int64_t getInt64() const { return m_value; }
};
template<typename T> inline Imm imm(T v) { return Imm(v); }
inline Imm imm_ptr(const void *p) { return Imm(reinterpret_cast<uint64_t>(p)); }

struct X86Gp
{
  int id, size;                    // size in bytes
  constexpr explicit X86Gp(int id = 0, int size = 8) : id(id), size(size) {}
  X86Gp r64() const { return X86Gp(id, 8); }
  X86Gp r32() const { return X86Gp(id, 4); }
  X86Gp r16() const { return X86Gp(id, 2); }
  X86Gp r8() const { return X86Gp(id, 1); }
  bool operator==(const X86Gp& o) const { return id == o.id && size == o.size; }
  bool operator!=(const X86Gp& o) const { return !(*this == o); }
};
struct X86Xmm
{
  int id;
  constexpr explicit X86Xmm(int id = 0) : id(id) {}
};
struct X86Mem
{
  enum { Base, FromLabel } kind = Base;
  X86Gp base{-1}, index{-1};
  int shift = 0, size = 0;
  Label label;
  int64_t offset = 0;
  X86Mem() {}
  X86Mem(const X86Gp& base, int64_t offset, int size = 0) : base(base), size(size), offset(offset) {}
  X86Mem(const X86Gp& base, const X86Gp& index, int shift, int64_t offset, int size = 0) : base(base), index(index), shift(shift), size(size), offset(offset) {}
  X86Mem(const Label& label, int64_t offset, int size = 0) : kind(FromLabel), size(size), label(label), offset(offset) {}
};

namespace x86
{
static const X86Gp rax(0), rcx(1), rdx(2), rbx(3), rsp(4), rbp(5), rsi(6), rdi(7), r8(8), r9(9), r10(10), r11(11), r12(12), r13(13), r14(14), r15(15);
static const X86Gp eax(0, 4), ecx(1, 4), edx(2, 4), ebx(3, 4), esp(4, 4), ebp(5, 4), esi(6, 4), edi(7, 4), r8d(8, 4), r9d(9, 4), r10d(10, 4), r11d(11, 4), r12d(12, 4), r13d(13, 4), r14d(14, 4), r15d(15, 4);
static const X86Gp ax(0, 2), cx(1, 2), dx(2, 2), bx(3, 2), al(0, 1), cl(1, 1), dl(2, 1), bl(3, 1), sil(6, 1), dil(7, 1), r8b(8, 1), r9b(9, 1);
static const X86Xmm xmm0(0), xmm1(1), xmm2(2), xmm3(3), xmm4(4), xmm5(5), xmm6(6), xmm7(7), xmm8(8), xmm9(9), xmm10(10), xmm11(11), xmm12(12), xmm13(13), xmm14(14), xmm15(15);
#define SHIM_PTR(NAME, SIZE)                                                                                          \
  inline X86Mem NAME(const X86Gp& b, int64_t off = 0) { return X86Mem(b, off, SIZE); }                                \
  inline X86Mem NAME(const X86Gp& b, const X86Gp& i, int shift = 0, int64_t off = 0) { return X86Mem(b, i, shift, off, SIZE); } \
  inline X86Mem NAME(const Label& l, int64_t off = 0) { return X86Mem(l, off, SIZE); }
SHIM_PTR(ptr, 0) SHIM_PTR(byte_ptr, 1) SHIM_PTR(word_ptr, 2) SHIM_PTR(dword_ptr, 4) SHIM_PTR(qword_ptr, 8) SHIM_PTR(oword_ptr, 16)
#undef SHIM_PTR
}

class ConstPool
{
  std::vector<uint8_t> m_data;
  size_t m_align = 1;
  std::vector<std::pair<size_t, size_t>> m_entries;
public:
  explicit ConstPool(Zone *) {}
  Error add(const void *data, size_t size, size_t& offset)
  {
    for (auto& e : m_entries)
      if (e.second == size && !std::memcmp(&m_data[e.first], data, size)) { offset = e.first; return kErrorOk; }
    while (m_data.size() % size) m_data.push_back(0);
    offset = m_data.size();
    const uint8_t *p = static_cast<const uint8_t *>(data);
    m_data.insert(m_data.end(), p, p + size);
    m_entries.emplace_back(offset, size);
    if (size > m_align) m_align = size;
    return kErrorOk;
  }
  size_t getSize() const { return m_data.size(); }
  size_t getAlignment() const { return m_align; }
  const std::vector<uint8_t>& shim_data() const { return m_data; }
};

class CodeHolder
{
  friend class X86Assembler;
  friend class JitRuntime;
  struct Fixup { size_t at; uint32_t label; int64_t addend; };     // a 32-bit displacement from at + 4
  std::vector<uint8_t> m_code;
  std::vector<int64_t> m_labels;
  std::vector<Fixup> m_fixups;
  std::vector<std::pair<size_t, uint64_t>> m_calls;                // displacement of an indirect call, and its target
  bool m_init = false;
  const void *m_added_to = nullptr;                                // the same code is placed in memory once
  void *m_added_at = nullptr;
  size_t m_added_size = 0;
public:
  CodeHolder() {}
  CodeHolder(const CodeHolder&) = delete;
  Error init(const CodeInfo&) { if (m_init) shim_error("a code holder is initialised twice"); m_init = true; return kErrorOk; }
  void reset(bool = false) { m_code.clear(); m_labels.clear(); m_fixups.clear(); m_calls.clear(); m_init = false; }
  bool isInitialized() const { return m_init; }
  void setLogger(Logger *) {}
  void setErrorHandler(ErrorHandler *) {}
  intptr_t getLabelOffset(const Label& l) const
  {
    if (!l.isValid() || l.getId() >= m_labels.size() || m_labels[l.getId()] < 0) shim_error("the offset of an unbound label");
    return m_labels[l.getId()];
  }
  size_t getCodeSize() const { return m_code.size(); }
  bool isLabelBound(const Label& l) const { return l.getId() < m_labels.size() && m_labels[l.getId()] >= 0; }
};

class JitRuntime
{
  std::vector<std::pair<void *, size_t>> m_blocks;
public:
  JitRuntime() {}
  JitRuntime(const JitRuntime&) = delete;
  ~JitRuntime() { for (auto& b : m_blocks) munmap(b.first, b.second); }
  CodeInfo getCodeInfo() const { return CodeInfo(); }
  template<typename F> Error add(F *dst, CodeHolder *code)
  {
    static_assert(sizeof(F) == sizeof(void *), "the address of a function");
    if (code->m_added_to == this && code->m_added_size == code->m_code.size())
    {
      std::memcpy(dst, &code->m_added_at, sizeof(void *));
      return kErrorOk;
    }
    std::vector<uint8_t> image(code->m_code);
    if (image.empty()) shim_error("no code");
    while (image.size() % 16) image.push_back(0xCC);
    for (auto& f : code->m_fixups)
    {
      if (f.label >= code->m_labels.size() || code->m_labels[f.label] < 0) shim_error("a label is used that was never bound");
      int32_t d = static_cast<int32_t>(code->m_labels[f.label] + f.addend - static_cast<int64_t>(f.at) - 4);
      std::memcpy(&image[f.at], &d, 4);
    }
    for (auto& c : code->m_calls)
    {
      int32_t d = static_cast<int32_t>(static_cast<int64_t>(image.size()) - static_cast<int64_t>(c.first) - 4);
      std::memcpy(&image[c.first], &d, 4);
      for (int i = 0; i < 8; i++) image.push_back(static_cast<uint8_t>(c.second >> 8 * i));
    }
    size_t size = (image.size() + 4095) / 4096 * 4096;
    void *p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) shim_error("no memory");
    std::memcpy(p, image.data(), image.size());
    if (mprotect(p, size, PROT_READ | PROT_EXEC)) shim_error("memory cannot be made executable");
    m_blocks.emplace_back(p, size);
    std::memcpy(dst, &p, sizeof p);
    code->m_added_to = this; code->m_added_at = p; code->m_added_size = code->m_code.size();
    return kErrorOk;
  }
  template<typename F> Error release(F) { return kErrorOk; }      // the memory is given back with the runtime
};

class CodeEmitter {};
class X86Assembler : public CodeEmitter
{
  CodeHolder *c;
  void b(int x) { c->m_code.push_back(static_cast<uint8_t>(x)); }
  void le(int64_t v, int n) { for (int i = 0; i < n; i++) b(static_cast<int>(v >> 8 * i & 0xFF)); }
  static bool fits8(int64_t v) { return v >= -128 && v <= 127; }
  static bool fits32(int64_t v) { return v == static_cast<int32_t>(v); }
  void use(const Label& l, int64_t addend = 0)
  {
    if (!l.isValid() || l.getId() >= c->m_labels.size()) shim_error("a label of no assembler");
    c->m_fixups.push_back({c->m_code.size(), l.getId(), addend});
    le(0, 4);
  }
  // prefix byte (or -1), REX.W, opcode bytes, register field, register or memory; `tail`: immediate bytes that follow
  void rex(bool w, int reg, int index, int base, bool force)
  {
    int r = 0x40 | w << 3 | (reg >> 3 & 1) << 2 | (index >> 3 & 1) << 1 | (base >> 3 & 1);
    if (r != 0x40 || force) b(r);
  }
  void enc(int prefix, bool w, std::initializer_list<int> op, int reg, int rm, bool force = false)
  {
    if (prefix >= 0) b(prefix);
    rex(w, reg, 0, rm, force);
    for (int o : op) b(o);
    b(0xC0 | (reg & 7) << 3 | (rm & 7));
  }
  void enc(int prefix, bool w, std::initializer_list<int> op, int reg, const X86Mem& m, int tail = 0, bool force = false)
  {
    if (prefix >= 0) b(prefix);
    if (m.kind == X86Mem::FromLabel)
    {
      rex(w, reg, 0, 0, force);
      for (int o : op) b(o);
      b(0x05 | (reg & 7) << 3);
      use(m.label, m.offset - tail);
      return;
    }
    if (m.base.id < 0 || m.base.size != 8 || !fits32(m.offset)) shim_error("an address that cannot be encoded");
    bool sib = m.index.id >= 0 || (m.base.id & 7) == 4;
    rex(w, reg, m.index.id >= 0 ? m.index.id : 0, m.base.id, force);
    for (int o : op) b(o);
    int mod = m.offset == 0 && (m.base.id & 7) != 5 ? 0 : fits8(m.offset) ? 1 : 2;
    b(mod << 6 | (reg & 7) << 3 | (sib ? 4 : m.base.id & 7));
    if (sib) b(m.shift << 6 | (m.index.id >= 0 ? m.index.id & 7 : 4) << 3 | (m.base.id & 7));
    if (mod == 1) le(m.offset, 1);
    if (mod == 2) le(m.offset, 4);
  }
  static bool byte_rex(const X86Gp& r) { return r.size == 1 && r.id >= 4 && r.id < 8; }
  int p16(int size) { return size == 2 ? 0x66 : -1; }
  Error alu(int n, const X86Gp& d, const X86Gp& s)
  {
    if (d.size != s.size) shim_error("operands of different sizes");
    enc(p16(d.size), d.size == 8, {n * 8 + (d.size == 1 ? 0 : 1)}, s.id, d.id, byte_rex(d) || byte_rex(s));
    return kErrorOk;
  }
  Error alu(int n, const X86Gp& d, const X86Mem& s)
  {
    enc(p16(d.size), d.size == 8, {n * 8 + (d.size == 1 ? 2 : 3)}, d.id, s, 0, byte_rex(d));
    return kErrorOk;
  }
  Error alu(int n, const X86Mem& d, const X86Gp& s)
  {
    enc(p16(s.size), s.size == 8, {n * 8 + (s.size == 1 ? 0 : 1)}, s.id, d, 0, byte_rex(s));
    return kErrorOk;
  }
  static int64_t narrow(int64_t v, int size)
  {
    if (size == 4 && v >= 0 && v <= 0xFFFFFFFFll) return static_cast<int32_t>(v);
    if (size == 2 && v >= 0 && v <= 0xFFFF) return static_cast<int16_t>(v);
    if (size == 1 && v >= 0 && v <= 0xFF) return static_cast<int8_t>(v);
    return v;
  }
  Error alu(int n, const X86Gp& d, const Imm& i)
  {
    int64_t v = narrow(i.getInt64(), d.size);
    if (!fits32(v)) shim_error("an immediate operand that does not fit");
    if (d.size == 1) { enc(-1, false, {0x80}, n, d.id, byte_rex(d)); le(v, 1); }
    else if (fits8(v)) { enc(p16(d.size), d.size == 8, {0x83}, n, d.id); le(v, 1); }
    else { enc(p16(d.size), d.size == 8, {0x81}, n, d.id); le(v, d.size == 2 ? 2 : 4); }
    return kErrorOk;
  }
  Error alu(int n, const X86Mem& d, const Imm& i)
  {
    if (!d.size) shim_error("a memory operand without size");
    int64_t v = narrow(i.getInt64(), d.size);
    if (!fits32(v)) shim_error("an immediate operand that does not fit");
    int t = d.size == 1 || fits8(v) ? 1 : d.size == 2 ? 2 : 4;
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0x80 : t == 1 ? 0x83 : 0x81}, n, d, t);
    le(v, t);
    return kErrorOk;
  }
  Error jcc(int cc, const Label& l) { b(0x0F); b(0x80 | cc); use(l); return kErrorOk; }
  Error sse(int prefix, std::initializer_list<int> op, const X86Xmm& a, const X86Xmm& s) { enc(prefix, false, op, a.id, s.id); return kErrorOk; }
  Error sse(int prefix, std::initializer_list<int> op, const X86Xmm& a, const X86Mem& s, int tail = 0) { enc(prefix, false, op, a.id, s, tail); return kErrorOk; }
  Error shift(int n, const X86Gp& d, const Imm& i)
  {
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0xC0 : 0xC1}, n, d.id, byte_rex(d));
    le(i.getInt64(), 1);
    return kErrorOk;
  }
  Error shift_cl(int n, const X86Gp& d, const X86Gp& s)
  {
    if (s.id != 1) shim_error("a shift by another register than cl");
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0xD2 : 0xD3}, n, d.id, byte_rex(d));
    return kErrorOk;
  }
  Error unary(int op, int n, const X86Gp& d)
  {
    enc(p16(d.size), d.size == 8, {d.size == 1 ? op - 1 : op}, n, d.id, byte_rex(d));
    return kErrorOk;
  }
public:
  explicit X86Assembler(CodeHolder *code) : c(code) { if (!code->m_init) shim_error("a code holder that is not initialised"); }
  Error finalize() { return kErrorOk; }
  Label newLabel() { c->m_labels.push_back(-1); return Label(static_cast<uint32_t>(c->m_labels.size() - 1)); }
  Error bind(const Label& l)
  {
    if (!l.isValid() || l.getId() >= c->m_labels.size()) shim_error("a label of no assembler is bound");
    if (c->m_labels[l.getId()] >= 0) shim_error("a label is bound twice");
    c->m_labels[l.getId()] = static_cast<int64_t>(c->m_code.size());
    return kErrorOk;
  }
  Error align(uint32_t mode, uint32_t n) { while (c->m_code.size() % n) b(mode == kAlignCode ? 0x90 : 0); return kErrorOk; }
  Error embed(const void *data, uint32_t size) { const uint8_t *p = static_cast<const uint8_t *>(data); c->m_code.insert(c->m_code.end(), p, p + size); return kErrorOk; }
  Error embedConstPool(const Label& l, const ConstPool& pool)
  {
    align(kAlignData, static_cast<uint32_t>(pool.getAlignment()));
    bind(l);
    return embed(pool.shim_data().data(), static_cast<uint32_t>(pool.getSize()));
  }
  Error comment(const char *, size_t = 0) { return kErrorOk; }
  Error commentf(const char *, ...) { return kErrorOk; }
  size_t getOffset() const { return c->m_code.size(); }

  Error mov(const X86Gp& d, const X86Gp& s)
  {
    if (d.size != s.size) shim_error("operands of different sizes");
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0x88 : 0x89}, s.id, d.id, byte_rex(d) || byte_rex(s));
    return kErrorOk;
  }
  Error mov(const X86Gp& d, const Imm& i)
  {
    int64_t v = i.getInt64();
    if (d.size == 8 && fits32(v)) { enc(-1, true, {0xC7}, 0, d.id); le(v, 4); }
    else if (d.size == 8 && v >= 0 && v <= 0xFFFFFFFFll) { rex(false, 0, 0, d.id, false); b(0xB8 | (d.id & 7)); le(v, 4); }
    else if (d.size == 8) { rex(true, 0, 0, d.id, false); b(0xB8 | (d.id & 7)); le(v, 8); }
    else if (d.size == 4) { rex(false, 0, 0, d.id, false); b(0xB8 | (d.id & 7)); le(v, 4); }
    else shim_error("an instruction the stand-in for asmjit does not know");
    return kErrorOk;
  }
  Error mov(const X86Gp& d, const X86Mem& s) { enc(p16(d.size), d.size == 8, {d.size == 1 ? 0x8A : 0x8B}, d.id, s, 0, byte_rex(d)); return kErrorOk; }
  Error mov(const X86Mem& d, const X86Gp& s) { enc(p16(s.size), s.size == 8, {s.size == 1 ? 0x88 : 0x89}, s.id, d, 0, byte_rex(s)); return kErrorOk; }
  Error mov(const X86Mem& d, const Imm& i)
  {
    if (!d.size || !fits32(narrow(i.getInt64(), d.size))) shim_error("an immediate operand that does not fit");
    int t = d.size > 4 ? 4 : d.size;
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0xC6 : 0xC7}, 0, d, t);
    le(i.getInt64(), t);
    return kErrorOk;
  }
  Error movabs(const X86Gp& d, const Imm& i) { rex(true, 0, 0, d.id, false); b(0xB8 | (d.id & 7)); le(i.getInt64(), 8); return kErrorOk; }
  Error lea(const X86Gp& d, const X86Mem& s) { enc(p16(d.size), d.size == 8, {0x8D}, d.id, s); return kErrorOk; }
  Error movzx(const X86Gp& d, const X86Mem& s)
  {
    if (s.size != 1 && s.size != 2) shim_error("an operand of movzx without size");
    enc(p16(d.size), d.size == 8, {0x0F, s.size == 1 ? 0xB6 : 0xB7}, d.id, s);
    return kErrorOk;
  }
  Error movzx(const X86Gp& d, const X86Gp& s)
  {
    if (s.size != 1 && s.size != 2) shim_error("an operand of movzx of the wrong size");
    enc(p16(d.size), d.size == 8, {0x0F, s.size == 1 ? 0xB6 : 0xB7}, d.id, s.id, byte_rex(s));
    return kErrorOk;
  }
  Error movsx(const X86Gp& d, const X86Mem& s)
  {
    if (s.size != 1 && s.size != 2) shim_error("an operand of movsx without size");
    enc(p16(d.size), d.size == 8, {0x0F, s.size == 1 ? 0xBE : 0xBF}, d.id, s);
    return kErrorOk;
  }
  Error movnti(const X86Mem& d, const X86Gp& s) { enc(-1, s.size == 8, {0x0F, 0xC3}, s.id, d); return kErrorOk; }
  Error push(const X86Gp& r) { if (r.size != 8) shim_error("push of a part of a register"); rex(false, 0, 0, r.id, false); b(0x50 | (r.id & 7)); return kErrorOk; }
  Error push(const Imm& i)
  {
    int64_t v = i.getInt64();
    if (!fits32(v)) shim_error("an immediate operand that does not fit");
    if (fits8(v)) { b(0x6A); le(v, 1); } else { b(0x68); le(v, 4); }
    return kErrorOk;
  }
  Error push(const X86Mem& m) { enc(-1, false, {0xFF}, 6, m); return kErrorOk; }
  Error pop(const X86Gp& r) { if (r.size != 8) shim_error("pop of a part of a register"); rex(false, 0, 0, r.id, false); b(0x58 | (r.id & 7)); return kErrorOk; }
#define SHIM_ALU(NAME, N)                                                                \
  Error NAME(const X86Gp& d, const X86Gp& s) { return alu(N, d, s); }                    \
  Error NAME(const X86Gp& d, const X86Mem& s) { return alu(N, d, s); }                   \
  Error NAME(const X86Mem& d, const X86Gp& s) { return alu(N, d, s); }                   \
  Error NAME(const X86Gp& d, const Imm& i) { return alu(N, d, i); }                      \
  Error NAME(const X86Mem& d, const Imm& i) { return alu(N, d, i); }
  SHIM_ALU(add, 0) SHIM_ALU(or_, 1) SHIM_ALU(adc, 2) SHIM_ALU(sbb, 3) SHIM_ALU(and_, 4) SHIM_ALU(sub, 5) SHIM_ALU(xor_, 6) SHIM_ALU(cmp, 7)
#undef SHIM_ALU
  Error test(const X86Gp& d, const X86Gp& s) { enc(p16(d.size), d.size == 8, {d.size == 1 ? 0x84 : 0x85}, s.id, d.id, byte_rex(d) || byte_rex(s)); return kErrorOk; }
  Error test(const X86Gp& d, const Imm& i)
  {
    if (!fits32(narrow(i.getInt64(), d.size))) shim_error("an immediate operand that does not fit");
    enc(p16(d.size), d.size == 8, {d.size == 1 ? 0xF6 : 0xF7}, 0, d.id, byte_rex(d));
    le(i.getInt64(), d.size > 4 ? 4 : d.size);
    return kErrorOk;
  }
  Error inc(const X86Gp& d) { return unary(0xFF, 0, d); }
  Error dec(const X86Gp& d) { return unary(0xFF, 1, d); }
  Error not_(const X86Gp& d) { return unary(0xF7, 2, d); }
  Error neg(const X86Gp& d) { return unary(0xF7, 3, d); }
  Error shl(const X86Gp& d, const Imm& i) { return shift(4, d, i); }
  Error sal(const X86Gp& d, const Imm& i) { return shift(4, d, i); }
  Error shr(const X86Gp& d, const Imm& i) { return shift(5, d, i); }
  Error sar(const X86Gp& d, const Imm& i) { return shift(7, d, i); }
  Error rol(const X86Gp& d, const Imm& i) { return shift(0, d, i); }
  Error ror(const X86Gp& d, const Imm& i) { return shift(1, d, i); }
  Error shl(const X86Gp& d, const X86Gp& s) { return shift_cl(4, d, s); }
  Error shr(const X86Gp& d, const X86Gp& s) { return shift_cl(5, d, s); }
  Error imul(const X86Gp& d, const X86Gp& s) { enc(p16(d.size), d.size == 8, {0x0F, 0xAF}, d.id, s.id); return kErrorOk; }
  Error xchg(const X86Gp& d, const X86Gp& s) { enc(p16(d.size), d.size == 8, {0x87}, s.id, d.id); return kErrorOk; }
  Error bt(const X86Gp& d, const X86Gp& s) { enc(p16(d.size), d.size == 8, {0x0F, 0xA3}, s.id, d.id); return kErrorOk; }
  Error bt(const X86Gp& d, const Imm& i) { enc(p16(d.size), d.size == 8, {0x0F, 0xBA}, 4, d.id); le(i.getInt64(), 1); return kErrorOk; }
  Error nop() { b(0x90); return kErrorOk; }
  Error int3() { b(0xCC); return kErrorOk; }
  Error ret() { b(0xC3); return kErrorOk; }
  Error leave() { b(0xC9); return kErrorOk; }
  Error jmp(const Label& l) { b(0xE9); use(l); return kErrorOk; }
  Error jmp(const X86Gp& r) { enc(-1, false, {0xFF}, 4, r.id); return kErrorOk; }
  Error call(const Label& l) { b(0xE8); use(l); return kErrorOk; }
  Error call(const X86Gp& r) { enc(-1, false, {0xFF}, 2, r.id); return kErrorOk; }
  Error call(const Imm& address)
  {
    b(0xFF); b(0x15);
    c->m_calls.emplace_back(c->m_code.size(), static_cast<uint64_t>(address.getInt64()));
    le(0, 4);
    return kErrorOk;
  }
#define SHIM_CC(NAME, CC)                                                                              \
  Error j##NAME(const Label& l) { return jcc(CC, l); }                                                 \
  Error set##NAME(const X86Gp& d) { enc(-1, false, {0x0F, 0x90 | CC}, 0, d.id, byte_rex(d)); return kErrorOk; } \
  Error cmov##NAME(const X86Gp& d, const X86Gp& s) { enc(p16(d.size), d.size == 8, {0x0F, 0x40 | CC}, d.id, s.id); return kErrorOk; }
  SHIM_CC(o, 0) SHIM_CC(no, 1) SHIM_CC(b, 2) SHIM_CC(c, 2) SHIM_CC(nae, 2) SHIM_CC(nb, 3) SHIM_CC(ae, 3) SHIM_CC(nc, 3) SHIM_CC(e, 4) SHIM_CC(z, 4) SHIM_CC(ne, 5) SHIM_CC(nz, 5)
  SHIM_CC(be, 6) SHIM_CC(na, 6) SHIM_CC(a, 7) SHIM_CC(nbe, 7) SHIM_CC(s, 8) SHIM_CC(ns, 9) SHIM_CC(p, 10) SHIM_CC(np, 11) SHIM_CC(l, 12) SHIM_CC(nge, 12) SHIM_CC(ge, 13) SHIM_CC(nl, 13)
  SHIM_CC(le, 14) SHIM_CC(ng, 14) SHIM_CC(g, 15) SHIM_CC(nle, 15)
#undef SHIM_CC
  Error sfence() { b(0x0F); b(0xAE); b(0xF8); return kErrorOk; }
  Error mfence() { b(0x0F); b(0xAE); b(0xF0); return kErrorOk; }
  Error lfence() { b(0x0F); b(0xAE); b(0xE8); return kErrorOk; }
  Error prefetcht0(const X86Mem& m) { enc(-1, false, {0x0F, 0x18}, 1, m); return kErrorOk; }
  Error prefetchnta(const X86Mem& m) { enc(-1, false, {0x0F, 0x18}, 0, m); return kErrorOk; }
  Error movdqa(const X86Xmm& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0x6F}, d, s); }
  Error movdqa(const X86Xmm& d, const X86Mem& s) { return sse(0x66, {0x0F, 0x6F}, d, s); }
  Error movdqa(const X86Mem& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0x7F}, s, d); }
  Error movdqu(const X86Xmm& d, const X86Xmm& s) { return sse(0xF3, {0x0F, 0x6F}, d, s); }
  Error movdqu(const X86Xmm& d, const X86Mem& s) { return sse(0xF3, {0x0F, 0x6F}, d, s); }
  Error movdqu(const X86Mem& d, const X86Xmm& s) { return sse(0xF3, {0x0F, 0x7F}, s, d); }
  Error movaps(const X86Xmm& d, const X86Xmm& s) { return sse(-1, {0x0F, 0x28}, d, s); }
  Error movups(const X86Xmm& d, const X86Mem& s) { return sse(-1, {0x0F, 0x10}, d, s); }
  Error movups(const X86Mem& d, const X86Xmm& s) { return sse(-1, {0x0F, 0x11}, s, d); }
  Error movq(const X86Gp& d, const X86Xmm& s) { enc(0x66, true, {0x0F, 0x7E}, s.id, d.id); return kErrorOk; }
  Error movq(const X86Xmm& d, const X86Gp& s) { enc(0x66, true, {0x0F, 0x6E}, d.id, s.id); return kErrorOk; }
  Error pxor(const X86Xmm& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0xEF}, d, s); }
  Error por(const X86Xmm& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0xEB}, d, s); }
  Error pand(const X86Xmm& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0xDB}, d, s); }
  Error pcmpeqb(const X86Xmm& d, const X86Xmm& s) { return sse(0x66, {0x0F, 0x74}, d, s); }
  Error pcmpeqb(const X86Xmm& d, const X86Mem& s) { return sse(0x66, {0x0F, 0x74}, d, s); }
  Error pmovmskb(const X86Gp& d, const X86Xmm& s) { enc(0x66, false, {0x0F, 0xD7}, d.id, s.id); return kErrorOk; }
  Error pcmpistri(const X86Xmm& a, const X86Xmm& s, const Imm& i) { sse(0x66, {0x0F, 0x3A, 0x63}, a, s); le(i.getInt64(), 1); return kErrorOk; }
  Error pcmpistri(const X86Xmm& a, const X86Mem& s, const Imm& i) { sse(0x66, {0x0F, 0x3A, 0x63}, a, s, 1); le(i.getInt64(), 1); return kErrorOk; }
};
}
