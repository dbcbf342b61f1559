// Shared by the drivers: reading runs, forking, virtual time stamps.
#pragma once
#include "sim.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <ctime>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

inline long vt()
{
    return (long)(sim::now_ns() / 1000) - 1000000000L;
}

#define ev(...) sim::log(__VA_ARGS__)

// Input: lines; a run starts with "R id seed strategy mem sync tick_us step_ns maxsteps" and ends with "G".
// Output: "# id status", the event lines, ".".  When too much time has been lost in runs which do not end, the others are
// skipped: "# id -2 0".
inline int drv_main(void (*program)(const std::vector<std::string> &), bool log_rest = false)
{
    const size_t cap = 8u << 20;
    char *buf = (char *)mmap((void *)0x300000000000, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    std::string line, head;
    long lost = 0;
    std::vector<std::string> prog;
    while (std::getline(std::cin, line))
    {
        if (line.empty())
        {
            continue;
        }
        if (line[0] == 'R')
        {
            head = line;
            prog.clear();
            continue;
        }
        if (line[0] != 'G')
        {
            prog.push_back(line);
            continue;
        }
        std::istringstream is(head);
        std::string r, id;
        sim::Config cfg;
        uint64_t tick_us;
        is >> r >> id >> cfg.seed >> cfg.strategy >> cfg.mem_interval >> cfg.sync_permille >> tick_us >> cfg.step_ns >> cfg.max_steps;
        cfg.tick_ns = tick_us * 1000;
        cfg.log_rest = log_rest;
        if (lost > 60)
        {
            printf("# %s -2 0\n.\n", id.c_str());
            continue;
        }
        memset(buf, 0, 64);
        fflush(stdout);
        time_t t0 = time(nullptr);
        pid_t p = fork();
        if (p == 0)
        {
            alarm(cfg.max_steps > 5000000 ? 120 : 30);
            sim::start(cfg, buf, cap);
            program(prog);
            sim::finish("end");
        }
        int st = 0;
        struct rusage ru;
        wait4(p, &st, 0, &ru);
        if (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec > 0 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM))
        {
            lost += time(nullptr) - t0;
        }
        printf("# %s %d %d\n", id.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
        fputs(buf, stdout);
        puts(".");
    }
    return 0;
}
