// Vector, deque, stack, linked list against std::deque / std::vector.
#include "mb.hpp"
#include "oom.hpp"
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include "pdc_vector.h"
#include "pdc_deque.h"
#include "pdc_stack.h"
#include "pdc_linkedlist.h"
// the source file and its header disagree on the names; accept either
void stack_init(PDC_stack_t *) __attribute__((weak)); void stack_push(PDC_stack_t *, void *) __attribute__((weak)); void *stack_pop(PDC_stack_t *) __attribute__((weak)); void stack_free(PDC_stack_t *) __attribute__((weak));
#pragma weak PDC_stack_init
#pragma weak PDC_stack_push
#pragma weak PDC_stack_pop
#pragma weak PDC_stack_free
}
using namespace mb;
static std::string hist;
static void vec_case(Rng &r) {
    static const double fs[] = {2.0, 1.5, 1.1, 3.0, 1.25, 4.0, 1.01};
    bool dflt = r.chance(25);
    size_t cap = (size_t)r.range(1, 12); double f = fs[r.below(7)];
    if (r.chance(3)) {
        oom::arm((long)r.below(3));
        PDC_VECTOR *u = pdc_vector_create(cap, f);
        if (oom::disarm() ? u != NULL : u == NULL) fail("vector-new-oom", "a vector without memory");
        pdc_vector_destroy(u);
    }
    PDC_VECTOR *v = dflt ? pdc_vector_new() : pdc_vector_create(cap, f);
    hist = dflt ? "vector default" : fmt("vector cap=%zu factor=%g", cap, f);
    if (pdc_vector_get_expansion_factor(v) != (dflt ? 2.0 : f)) fail("vector-factor", hist + " after creation");
    if (r.chance(5)) { // no vector, no item
        pdc_vector_add(v, NULL); pdc_vector_add(NULL, &f); pdc_vector_set_expansion_factor(NULL, 2); pdc_vector_destroy(NULL); pdc_vector_iterator_destroy(NULL);
        if (pdc_vector_size(v) || pdc_vector_size(NULL) || pdc_vector_get(NULL, 0) || pdc_vector_get_expansion_factor(NULL) != 0 || pdc_vector_iterator_new(NULL) || pdc_vector_iterator_next(NULL) || pdc_vector_iterator_has_next(NULL)) fail("vector-null", hist);
    }
    std::vector<int *> m;
    int n = (int)r.range(0, 400);
    for (int i = 0; i < n; i++) {
        int *p = (int *)malloc(sizeof(int)); *p = (int)m.size();
        if (r.chance(3)) oom::arm(0); // memory runs out: the item is not added, the others stay
        pdc_vector_add(v, p);
        if (oom::disarm()) { stat("vec_oom"); hist += fmt(" oom@%d", i); free(p); } else m.push_back(p);
        if (pdc_vector_size(v) != m.size()) { fail("vector-size", hist + fmt(" after %d adds: %zu", i + 1, pdc_vector_size(v))); break; }
        if (r.chance(10)) { size_t j = r.below(m.size() + 3); void *g = pdc_vector_get(v, j); if (g != (j < m.size() ? m[j] : NULL)) fail("vector-get", hist + fmt(" index %zu of %zu", j, m.size())); stat("vec_get"); }
        if (r.chance(2)) { double nf = fs[r.below(7)]; pdc_vector_set_expansion_factor(v, nf); if (pdc_vector_get_expansion_factor(v) != nf) fail("vector-factor", hist); hist += fmt(" f@%d=%g", i, nf); }
        stat("vec_add");
    }
    PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(v);
    size_t k = 0;
    while (pdc_vector_iterator_has_next(it) && k <= m.size()) { void *g = pdc_vector_iterator_next(it); if (k < m.size() && g != m[k]) { fail("vector-iter", hist + fmt(" pos %zu", k)); break; } k++; }
    if (k != m.size()) fail("vector-iter-count", hist + fmt(" %zu of %zu", k, m.size()));
    if (pdc_vector_iterator_next(it) != NULL) fail("vector-iter-end", hist);
    // two iterators over one vector do not disturb each other
    if (!m.empty()) {
        PDC_VECTOR_ITERATOR *a = pdc_vector_iterator_new(v), *b = pdc_vector_iterator_new(v); size_t i = 0, j = 0;
        for (int q = 0; q < 20; q++) { bool fa = r.chance(50); size_t &x = fa ? i : j; void *g = pdc_vector_iterator_next(fa ? a : b); if (g != (x < m.size() ? m[x] : NULL)) { fail("vector-two-iter", hist); break; } x++; }
        pdc_vector_iterator_destroy(a); pdc_vector_iterator_destroy(b);
    }
    pdc_vector_iterator_destroy(it);
    for (size_t i = 0; i < m.size(); i++) if (*(int *)pdc_vector_get(v, i) != (int)i) { fail("vector-content", hist); break; }
    pdc_vector_destroy(v);
    hist += fmt(" n=%d", n);
    stat("vec_iter");
}
static void deque_case(Rng &r) {
    PDC_deque_t d; PDC_deque_init(&d);
    std::deque<void *> m;
    uintptr_t id = 1;
    hist = "deque ";
    int phases = (int)r.range(1, 8);
    for (int ph = 0; ph < phases && nfail() < 6; ph++) {
        int bias = (int)r.range(15, 85), front = (int)r.range(0, 100), n = (int)r.range(1, 150);
        hist += fmt("[push%d front%d n%d]", bias, front, n);
        for (int i = 0; i < n; i++) {
            bool fr = r.chance(front);
            if (r.chance(bias)) {
                void *p = (void *)(id++ * 16);
                if (fr) { PDC_deque_push_front(&d, p); m.push_front(p); } else { PDC_deque_push_back(&d, p); m.push_back(p); }
                stat("deque_push");
            } else {
                void *e = NULL, *g;
                if (!m.empty()) { e = fr ? m.front() : m.back(); if (fr) m.pop_front(); else m.pop_back(); }
                g = fr ? PDC_deque_pop_front(&d) : PDC_deque_pop_back(&d);
                if (g != e) { fail("deque-pop", hist + fmt(" op %d got %p expected %p size %zu", i, g, e, m.size())); goto out; }
                stat("deque_pop");
            }
            if (d.size != m.size()) { fail("deque-size", hist); goto out; }
        }
    }
    while (!m.empty()) { void *g = PDC_deque_pop_front(&d); if (g != m.front()) { fail("deque-drain", hist); break; } m.pop_front(); stat("deque_pop"); }
out:
    PDC_deque_free(&d);
}
static void stack_case(Rng &r) {
    auto in = PDC_stack_init ? PDC_stack_init : stack_init; auto pu = PDC_stack_push ? PDC_stack_push : stack_push;
    auto po = PDC_stack_pop ? PDC_stack_pop : stack_pop; auto fr = PDC_stack_free ? PDC_stack_free : stack_free;
    PDC_stack_t s; in(&s);
    std::vector<void *> m; uintptr_t id = 1; hist = "stack ";
    int n = (int)r.range(1, 400), bias = (int)r.range(30, 90);
    for (int i = 0; i < n; i++) {
        if (m.empty() || r.chance(bias)) { void *p = (void *)(id++ * 16); pu(&s, p); m.push_back(p); hist += "p"; stat("stack_push"); }
        else { void *g = po(&s); if (g != m.back()) { fail("stack-pop", hist); break; } m.pop_back(); hist += "o"; stat("stack_pop"); }
        if (s.size != m.size()) { fail("stack-size", hist); break; }
    }
    while (!m.empty() && nfail() < 6) { if (po(&s) != m.back()) { fail("stack-drain", hist); break; } m.pop_back(); }
    if (r.chance(2) && s.size == 0) { // nothing to take: the program ends, it does not read before the stack
        pid_t pid = fork();
        if (pid == 0) { (void)!freopen("/dev/null", "w", stdout); (void)!freopen("/dev/null", "w", stderr); po(&s); _exit(0); }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("stack-underflow", hist + " taking from an empty stack returns");
        if (WIFSIGNALED(st)) fail("stack-underflow", hist + " taking from an empty stack crashes");
        stat("stack_underflows");
    }
    fr(&s);
}
struct node { int v; PDC_LIST_ENTRY(node) entry; };
static void list_case(Rng &r) {
    PDC_LIST_HEAD(node) h; PDC_LIST_INIT(&h);
    std::deque<node *> m; hist = "list ";
    int n = (int)r.range(1, 120);
    for (int i = 0; i < n; i++) {
        if (m.empty() || r.chance(60)) { node *x = (node *)malloc(sizeof *x); x->v = i; PDC_LIST_INSERT_HEAD(&h, x, entry); m.push_front(x); hist += "i"; }
        else { size_t j = r.below(m.size()); node *x = m[j]; PDC_LIST_REMOVE(x, entry); m.erase(m.begin() + j); free(x); hist += "r"; }
        size_t k = 0; node *it;
        PDC_LIST_FOREACH(it, &h, entry) { if (k >= m.size() || m[k] != it) { fail("list-order", hist); k = m.size(); break; } k++; }
        if (k != m.size()) fail("list-count", hist);
        if (PDC_LIST_IS_EMPTY(&h) != m.empty()) fail("list-empty", hist);
        if (!m.empty() && PDC_LIST_FIRST(&h) != m[0]) fail("list-first", hist);
        if (!m.empty()) { int want = m[r.below(m.size())]->v; node *f; PDC_LIST_FOREACH(f, &h, entry) if (f->v == want) break; if (!f) fail("list-search", hist); }
        stat("list_ops");
        if (nfail() > 5) break;
    }
    for (auto x : m) free(x);
}
int main(int argc, char **argv) {
    return run(argc, argv, [](Rng &r, const std::string &) {
        switch (r.below(4)) { case 0: vec_case(r); break; case 1: deque_case(r); break; case 2: stack_case(r); break; default: list_case(r); }
        distincth("history", hist + fmt("%llx", (unsigned long long)r.s));
        sample(hist.substr(0, 160));
    });
}
