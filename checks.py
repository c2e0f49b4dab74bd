"""Per-property harness configuration (see DESIGN.md)."""
SIGNAL_WRAP = ["malloc", "calloc", "free", "vsnprintf", "snprintf", "sprintf", "printf", "dprintf", "fprintf", "puts", "fputs", "fwrite", "fflush",
               "strsignal", "exit", "signal", "sigaction"]
LOG_WRAP = ["time", "fopen", "pthread_mutex_init", "pthread_mutexattr_init"]
LOGMT_WRAP = ["fprintf", "vfprintf", "fopen", "fclose"]
MMAP_WRAP = ["open", "stat", "fstat", "posix_fallocate", "ftruncate", "mmap", "munmap", "close", "msync", "mlock", "munlock", "sysconf"]
SOCK_WRAP = ["socket", "bind", "listen", "connect", "accept", "accept4", "setsockopt", "getsockopt", "fcntl", "getaddrinfo", "freeaddrinfo", "getsockname", "getpeername", "send", "recv", "close"]
PIPE_WRAP = ["read", "write", "pipe", "pipe2", "close", "socket", "sendmsg", "sendto"]
TIME_WRAP = ["clock_gettime", "gettimeofday", "time", "nanosleep", "clock_nanosleep"]
PERF_WRAP = ["syscall", "prctl", "read", "close", "clock_gettime"]
SYNC_WRAP = ["pthread_" + x for x in ("mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock", "mutexattr_init", "mutexattr_destroy", "cond_init",
                                      "cond_destroy", "cond_wait", "cond_signal", "cond_broadcast", "attr_init", "attr_destroy", "create", "join")]
POLL_WRAP = ["epoll_ctl", "epoll_wait", "epoll_create1"]
CFG_LIBS = ["map", "buffer", "array", "queue", "heap", "timer", "string", "uri", "socket"]
ALL_LIBS = CFG_LIBS + ["linked-list", "ini", "option", "sc", "crc32", "signal", "memory-map", "mutex", "condition", "time"]
CHECKS = {
    "C01": [dict(bin="map", src=["harness/c01_map.cc"], libs=["map"], alloc=True, cases=250000, thorough=20000000)],
    "C02": [dict(bin="mapoom", src=["harness/c01_map.cc"], libs=["map"], alloc=True, defs=["MAP_OOM"], cases=300000, thorough=10000000),
            dict(bin="maplimit", src=["harness/c01_map.cc"], libs=["map"], alloc=True, defs=["MAP_OOM", "SC_MAP_MAX=64u"], cases=300000, thorough=10000000)],
    "C03": [dict(bin="bufrt", src=["harness/c03_buf_roundtrip.cc"], libs=["buffer"], alloc=True, cases=2000000)],
    "C04": [dict(bin="bufdec", src=["harness/c04_buf_decode.cc"], libs=["buffer"], cases=9000000, fuzz=True, fuzz_runs=40000)],
    "C05": [dict(bin="bufspace", src=["harness/c05_buf_space.cc"], libs=["buffer"], alloc=True, cases=2000000)],
    "C06": [dict(bin="array", src=["harness/c06_array.cc", "harness/c06_shim.c"], libs=["array"], alloc=True, cases=1600000)],
    "C07": [dict(bin="queue", src=["harness/c07_queue.cc", "harness/c07_shim.c"], libs=["queue"], alloc=True, cases=1600000)],
    "C08": [dict(bin="heap", src=["harness/c08_heap.cc"], libs=["heap"], alloc=True, cases=1600000)],
    "C09": [dict(bin="list", src=["harness/c09_list.cc"], libs=["linked-list"], cases=800000)],
    "C10": [dict(bin="stroom", src=["harness/c12_str.cc"], libs=["string"], alloc=True, defs=["OOM_CASES"], cases=200000),
            dict(bin="timeroom", src=["harness/c11_timer.cc"], libs=["timer"], alloc=True, defs=["OOM_CASES"], cases=120000),
            dict(bin="timerlim", src=["harness/c11_timer.cc"], libs=["timer"], alloc=True, defs=["OOM_CASES", "SC_TIMER_MAX=64u"], cases=60000),
            dict(bin="arraylim", src=["harness/c06_array.cc", "harness/c06_shim.c"], libs=["array"], alloc=True, defs=["OOM_CASES", "SC_ARRAY_MAX=1000ul"], cases=200000),
            dict(bin="queuelim", src=["harness/c07_queue.cc", "harness/c07_shim.c"], libs=["queue"], alloc=True, defs=["OOM_CASES", "SC_QUEUE_MAX=40ul"], cases=200000),
            dict(bin="heaplim", src=["harness/c08_heap.cc"], libs=["heap"], alloc=True, defs=["OOM_CASES", "SC_HEAP_MAX=64ul"], cases=200000),
            dict(bin="heapoom", src=["harness/c08_heap.cc"], libs=["heap"], alloc=True, defs=["OOM_CASES"], cases=400000),
            dict(bin="arrayoom", src=["harness/c06_array.cc", "harness/c06_shim.c"], libs=["array"], alloc=True, defs=["OOM_CASES"], cases=400000),
            dict(bin="queueoom", src=["harness/c07_queue.cc", "harness/c07_shim.c"], libs=["queue"], alloc=True, defs=["OOM_CASES"], cases=400000),
            dict(bin="bufoom", src=["harness/c05_buf_space.cc"], libs=["buffer"], alloc=True, defs=["BUF_OOM"], cases=400000)],
    "C11": [dict(bin="timer", src=["harness/c11_timer.cc"], libs=["timer"], alloc=True, cases=200000)],
    "C12": [dict(bin="str", src=["harness/c12_str.cc"], libs=["string"], alloc=True, cases=900000),
            dict(bin="strlim", src=["harness/c12_str.cc"], libs=["string"], alloc=True, defs=["STR_LIMIT=60", "OOM_CASES"], lib_defs=["SC_STR_MAX=60"], cases=180000)],
    "C13": [dict(bin="token", src=["harness/c13_token.cc"], libs=["string"], alloc=True, cases=3600000)],
    "C14": [dict(bin="ini", src=["harness/c14_ini.cc"], libs=["ini"], cases=600000)],
    "C15": [dict(bin="iniany", src=["harness/c14_ini.cc"], libs=["ini"], defs=["INI_ANY"], cases=150000, fuzz=True, fuzz_runs=30000)],
    "C16": [dict(bin="uri", src=["harness/c16_uri.cc"], libs=["uri"], alloc=True, cases=9000000, fuzz=True, fuzz_runs=40000)],
    "C17": [dict(bin="option", src=["harness/c17_option.cc"], libs=["option"], cases=6000000)],
    "C18": [dict(bin="crcsw", src=["harness/c18_crc.cc"], libs=["crc32"], cases=800000),
            dict(bin="crchw", src=["harness/c18_crc.cc"], libs=["crc32"], defs=["CRC_HW"], lib_flags=["-msse4.2", "-DHAVE_CRC32C"], cases=800000)],
    "C19": [dict(bin="scutil", src=["harness/c19_sc.cc", "harness/c19_shim.c"], libs=["sc"], cases=32000000)],
    "C20": [dict(bin="sigfmt", src=["harness/c20_fmt.cc"], libs=["signal"], cases=8000000, fuzz=True, fuzz_runs=20000)],
    "C21": [dict(bin="signal", src=["harness/c21_signal.cc"], libs=["signal"], cases=20000, wrap=SIGNAL_WRAP),
            dict(bin="signalbt", src=["harness/c21_signal.cc"], libs=["signal"], cases=4000, lib_defs=["HAVE_BACKTRACE"], defs=["SIG_BT"], wrap=SIGNAL_WRAP)],
    "C22": [dict(bin="log", src=["harness/c22_log.cc"], libs=["logger"], wrap=LOG_WRAP, cases=400000),
            dict(bin="log11", src=["harness/c22_log.cc"], libs=["logger"], std="c11", wrap=LOG_WRAP, cases=200000)],
    "C23": [dict(bin="logrot", src=["harness/c22_log.cc"], libs=["logger"], defs=["LOG_ROTATE"], wrap=LOG_WRAP, cases=4000)],
    "C24": [dict(bin="logmt", src=["harness/c24_logmt.cc"], libs=["logger"], tsan=True, lib_flags=["-O0"], wrap=LOGMT_WRAP, cases=4800),
            dict(bin="logmt11", src=["harness/c24_logmt.cc"], libs=["logger"], std="c11", tsan=True, lib_flags=["-O0"], wrap=LOGMT_WRAP, cases=4800),
            dict(bin="logmtasan", src=["harness/c24_logmt.cc"], libs=["logger"], wrap=LOGMT_WRAP, cases=4800)],
    "C25": [dict(bin="mmap", src=["harness/c25_mmap.cc"], libs=["memory-map"], wrap=MMAP_WRAP, cases=60000)],
    "C26": [dict(bin="sock", src=["harness/c26_sock.cc"], libs=["socket"], wrap=SOCK_WRAP, cases=200000)],
    "C27": [dict(bin="poll", src=["harness/c27_poll.cc"], libs=["socket"], alloc=True, wrap=POLL_WRAP, cases=120000),
            dict(bin="pollsmall", src=["harness/c27_poll.cc"], libs=["socket"], alloc=True, wrap=POLL_WRAP, defs=["SC_SOCK_POLL_MAX_EVENTS=4"], cases=120000),
            dict(bin="pollmt", src=["harness/c27_poll.cc"], libs=["socket"], tsan=True, lib_flags=["-O0"], wrap=POLL_WRAP, defs=["POLL_MT"], cases=24000)],
    "C28": [dict(bin="pipe", src=["harness/c28_pipe.cc"], libs=["socket"], wrap=PIPE_WRAP, cases=500000)],
    "C29": [dict(bin="sync", src=["harness/c29_sync.cc"], libs=["condition", "mutex", "thread"], wrap=SYNC_WRAP, cases=400000),
            dict(bin="syncmt", src=["harness/c29_sync.cc"], libs=["condition", "mutex", "thread"], tsan=True, lib_flags=["-O0"], defs=["SYNC_MT"], cases=24000)],
    "C30": [dict(bin="time", src=["harness/c30_time.cc"], libs=["time"], wrap=TIME_WRAP, cases=12000000)],
    "C31": [dict(bin="perf", src=["harness/c31_perf.cc"], libs=["perf"], wrap=PERF_WRAP, cases=200000)],
    "C32": [dict(bin="space", src=["harness/c32_space.cc", "harness/c06_shim.c", "harness/c07_shim.c"], libs=["array", "queue", "heap", "map", "timer", "buffer"],
                 alloc=True, cases=600000),
            dict(bin="mapwork", src=["harness/c32_space.cc", "harness/c06_shim.c", "harness/c07_shim.c"], libs=["array", "queue", "heap", "map", "timer", "buffer"],
                 alloc=True, defs=["MAP_WORK"], cases=200)],
    "C33": [dict(bin="indep", src=["harness/c33_scripts.cc", "harness/c06_shim.c", "harness/c07_shim.c"], libs=ALL_LIBS, tsan=True, lib_flags=["-O0"], cases=20000),
            dict(bin="indepasan", src=["harness/c33_scripts.cc", "harness/c06_shim.c", "harness/c07_shim.c"], libs=ALL_LIBS, cases=20000)],
    "C34": [dict(bin="cfgalloc", src=["harness/c33_scripts.cc", "harness/c06_shim.c", "harness/c07_shim.c"], libs=CFG_LIBS, alloc=True,
                 defs=["CFG_ALLOC", "SC_HAVE_CONFIG_H"], inc=["harness/cfg"], wrap=["strdup", "strndup", "asprintf", "vasprintf"], cases=200000)],
}

DEFAULT_TECHNIQUE = "stateful property-based testing against a reference model, sanitizer-instrumented, with shrinking"
DEFAULT_NOTE = ("Searches generated cases for a counterexample; a pass means none was found within the stated counts. Trusts the "
                "reference model in the harness, clang's sanitizers and the x86-64 Linux build of /repo's sources.")
TECHNIQUE = {
    "C32": "stateful property-based testing with an allocation-accounting oracle and a relative cost oracle, with shrinking",
    "C33": "metamorphic property-based testing over concurrent and nested scripts (alone = beside others), ThreadSanitizer, with shrinking",
    "C34": "stateful property-based testing under a tagging foreign allocator, with shrinking",
}
NOTE = {}
NOT_APPLICABLE = {}
