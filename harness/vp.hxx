#pragma once
// Specification API of the value-flow analysis (/verif/vf).  None of these functions is ever
// executed: specification units are compiled to LLVM IR and analysed.
#include <string>
#include <vector>
#include <array>
#include <cmath>
#include <utility>
#include "vp_rt.hxx"
extern "C"
{
  double vp_in_d(const char* tag, int i);         // arbitrary real input
  float vp_in_f(const char* tag, int i);
  unsigned int vp_in_u(const char* tag, int i);   // arbitrary non-negative integer
  int vp_in_i(const char* tag, int i);
  bool vp_in_b(const char* tag, int i);
  double vp_fn_d(const char* tag, int n, ...);    // opaque pure function of its arguments
  unsigned int vp_fn_u(const char* tag, int n, ...);
  void vp_eq_d(const char* tag, int i, double got, double want);
  void vp_near_d(const char* tag, int i, double got, double want);  // elementary functions, rounded constants
  double vp_diff(double value, const char* tag, int i);  // derivative by the input vp_in_d(tag, i)
  void vp_eq_u(const char* tag, int i, unsigned long got, unsigned long want);
  void vp_true(const char* tag, bool cond);
  void vp_eq_p(const char* tag, const void* got, const void* want);
  void vp_unreach(const char* tag);
  void vp_abort_iff(bool cond);                   // the unit may stop with an assertion iff cond
  void vp_assume(bool cond);
  void vp_event(const char* tag, int n, ...);
  void vp_file(const char* name, const char* fmt, ...);
  unsigned long vp_files();                       // number of files written or given
  unsigned long vp_vtu_n(const char* what);       // NumberOfPoints | NumberOfCells | len NAME | comp NAME
  double vp_vtu_d(const char* array, int i);      // entry of a data array of the file loaded last
  unsigned long vp_vtu_u(const char* array, int i);
  void vp_file_s(const char* name, const std::string& content);
}
void vp_in_s_(std::string* s, const char* tag) __asm__("vp_in_s");
void vp_vtu_(const char* tag, const std::string* name) __asm__("vp_vtu");
void vp_text_(std::string* s, const char* fmt, ...) __asm__("vp_text");
void vp_content_(std::string* s, const char* name) __asm__("vp_content");
void vp_eq_s_(const char* tag, const std::string* got, const std::string* want) __asm__("vp_eq_s");

template <class T> struct vp_in;
template <> struct vp_in<double> { static double get(const char* t, int i) { return vp_in_d(t, i); } };
template <> struct vp_in<float> { static float get(const char* t, int i) { return vp_in_f(t, i); } };
template <> struct vp_in<unsigned int> { static unsigned int get(const char* t, int i) { return vp_in_u(t, i); } };
template <> struct vp_in<int> { static int get(const char* t, int i) { return vp_in_i(t, i); } };
inline std::string vp_str(const char* tag) { std::string s; vp_in_s_(&s, tag); return s; }
#ifndef NDEBUG
#define VP_ABORT_IFF(c) vp_abort_iff(c)
#define VP_DEBUG 1
#else
#define VP_ABORT_IFF(c) vp_assume(!(c))
#define VP_DEBUG 0
#endif
