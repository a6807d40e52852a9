/* Messages of every severity through the compiled logging: C27. */
#include <cstdio>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include "pctsp/logger.hh"

namespace hxl {
int boost_level(int py) { return getBoostLevelFromPyLevel(py); }
void init(int py) { PCTSPinitLogging(getBoostLevelFromPyLevel(py)); }
void emit(int severity, std::string text) {
    switch (severity) {
    case 0: BOOST_LOG_TRIVIAL(trace) << text; break;
    case 1: BOOST_LOG_TRIVIAL(debug) << text; break;
    case 2: BOOST_LOG_TRIVIAL(info) << text; break;
    case 3: BOOST_LOG_TRIVIAL(warning) << text; break;
    case 4: BOOST_LOG_TRIVIAL(error) << text; break;
    default: BOOST_LOG_TRIVIAL(fatal) << text;
    }
}
int saved[2] = {-1, -1};
/* standard output and error go to the file until stop() */
void start(std::string file) {
    std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(NULL);
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    for (int i : {1, 2}) { saved[i - 1] = dup(i); dup2(fd, i); }
    close(fd);
}
void stop() {
    boost::log::core::get()->flush();
    std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(NULL);
    for (int i : {1, 2}) if (saved[i - 1] >= 0) { dup2(saved[i - 1], i); close(saved[i - 1]); saved[i - 1] = -1; }
}
}
PYBIND11_MODULE(hx_log, m) {
#define D(f) m.def(#f, &hxl::f, "")
    D(boost_level); D(init); D(emit); D(start); D(stop);
}
