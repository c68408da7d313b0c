// Documents made of any sequence of lines of these forms; M stands for the text of the line.
#pragma once
#include "v.h"
static const char *LK[] = { "", "M", "- M", "  M", "1. M", "   M", "> M", " M", "\tM", "# M", "<M", "...", "---", "10. M",
    "* M", "-  M", "> - M", ">", "+M", "**M**", " \t", "> # M", "> > M", "    M", ">   M", "M.", "## M", "# " };
#define NLK 28
#define NCORE 14
// One line of kind k, its text m written in full
static void cl_line(v_buf *d, int k, const char *m, size_t n) { for (const char *p = LK[k]; *p; p++) if (*p == 'M') v_buf_n(d, m, n); else v_buf_c(d, *p); }
static int cl_text(int k) { for (const char *p = LK[k]; *p; p++) if (*p == 'M') return *p; return 0; }
