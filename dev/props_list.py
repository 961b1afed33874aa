prop('C01', 'No random byte reaches the caller past a failed health test or self test',
     'A read never stores a byte into the caller\'s buffer for a block whose collection left a health failure latched '
     'on an instance running with the health tests enforced, nor while the instance carries a failed bound self test. '
     'Before every block the self-test mark is looked at again and fresh time stamps are collected.',
     ['inputs', 'histories', 'fault_sequences'], 'every instance state, buffer, length, number of blocks and every '
     'outcome of the noise collection, with the self-test mark being set by another thread at any time',
     'tests can only provoke a few failure patterns at a few block positions; a gate missing for one block position, '
     'one mode or one failure bit is not sampled',
     [BASE, HEALTH, NOISE, SHA3], [('block loop', BASE + ':jent_read_entropy'), ('verdict', HEALTH + ':jent_health_failure')],
     [('health_failure', 'latched failures', INT), ('selftest_failed', 'bound self test failed', INT)],
     ['bytes stored to the caller buffer'],
     note='for all inputs and any number of loop iterations (fix point); both build configurations; assumes the IR of '
     'clang -O0 represents the program')
prop('C02', 'Error codes follow the documented meaning and precedence',
     'A read on a null handle, or with a null buffer and a non-zero length, returns invalid-argument (-1); a timer that '
     'cannot be started returns -4; a failed bound self test returns -11. A latched health failure is reported as the '
     'documented code with permanent failures before intermittent ones (-6, -7, -8, -10, then -2, -3, -9, -5), and no '
     'other negative value is ever returned.',
     ['inputs', 'histories'], 'every combination of latched failure bits, instance mode, arguments and block position',
     'the combinations of failure bits are rarely produced by real noise; tests check single bits at most',
     [BASE, HEALTH], [('mapping', BASE + ':jent_read_entropy')], [('health_failure', 'failure bits', INT)],
     ['return value of the read'])
prop('C03', 'Self-healing read retries only intermittent failures, on a new instance',
     'The self-healing read returns misuse, timer, permanent-health and self-test errors immediately and unchanged, '
     'without touching the instance. An intermittent health error is either healed - the handle points to a newly '
     'allocated instance, the old one is released exactly once, and the missing bytes are read from the new one - or '
     'returned unchanged with the old instance kept alive behind the handle and nothing leaked. Success is reported '
     'only for the full requested length.',
     ['inputs', 'fault_sequences', 'histories'], 'every sequence of inner results, start-up test verdicts and '
     'allocation outcomes', 'needs particular failure sequences (failure on a later block, failing reallocation) '
     'tests cannot inject', [BASE], [('retry loop', BASE + ':jent_read_entropy_safe'),
                                     ('replacement', BASE + ':jent_health_failure_reset')], [],
     ['return value', 'handle', 'allocations and releases'])
prop('C04', 'Failure latches and the enforced mode of an instance are never taken back',
     'Once a health failure or a failed bound self test is recorded on an instance, no operation of the library removes '
     'it from that instance again, and an instance that enforces the health tests never stops doing so: all of them '
     'survive until the instance is released.',
     ['inputs', 'histories', 'schedules'], 'every store in every function that handles an instance, in every state',
     'needs a recorded failure followed by the one operation that loses it', [BASE, HEALTH, NOISE],
     [('health failures', HEALTH + ':jent_rct_insert'), ('self test', BASE + ':jent_selftest')],
     [('health_failure', 'latched failures', INT), ('selftest_failed', 'bound self test failed', INT),
      ('is_fips_enabled', 'health tests enforced', INT)], ['error codes of later reads'])
prop('C05', 'Every measurement is judged by the health tests and mixed into the pool',
     'Each of the three measurement functions submits exactly one value per call to the stuck/health tests of its own '
     'instance: the difference between the latest time stamp and an earlier one, in units of the common timer divisor. '
     'The very same 64-bit value is absorbed into that instance\'s entropy pool and handed out as raw value, whether '
     'it is stuck or not; the stuck verdict is returned; and a measurement relative to the previous time stamp leaves '
     'its own time stamp as the next reference.',
     ['inputs', 'histories'], 'every instance content, loop count and time stamp, with and without internal timer',
     'the pool content is not observable from outside; dropping or truncating the value in one mode changes no test '
     'outcome', [NOISE], [('measurement', NOISE + ':jent_measure_jitter'), ('insertion', NOISE + ':jent_hash_insert')],
     [('prev_time', 'reference time stamp', INT)], ['entropy pool', 'stuck verdict'])
prop('C06', 'Each health test makes exactly the transition its definition prescribes',
     'For every measurement: the value is stuck exactly when its first, second or third discrete derivative is zero; '
     'the repetition count grows by one on a stuck value and restarts at zero otherwise; the adaptive proportion test '
     'counts occurrences of the first value in windows of 512; the lag predictor test records the value, scores the '
     'eight predictors, counts total and consecutive successes and restarts after 131072 observations; the '
     'repetition count with memory counts stuck values among every third one of its window. The permanent failure is '
     'latched whenever a permanent cutoff is reached, otherwise the intermittent one when the intermittent cutoff is '
     'reached, and nothing else changes the failure bits; the intermittent cutoff of the test with memory triggers ten '
     'further collections first, with start-up state and recovery mark restored afterwards.',
     ['inputs', 'histories'], 'every time delta and every content of the counters, histories and cutoffs',
     'windows and cutoffs need up to 131072 particular samples; off-by-one changes at their edges pass every '
     'statistical test', [HEALTH], [('stuck test', HEALTH + ':jent_stuck'), ('lag', HEALTH + ':jent_lag_insert'),
     ('apt', HEALTH + ':jent_apt_insert'), ('rct', HEALTH + ':jent_rct_insert'),
     ('rct with memory', HEALTH + ':jent_rct_mem_insert')],
     [('health_failure', 'latched failures', INT)], ['health failure bits', 'stuck verdict'])
prop('C07', 'Every block rests on enough accepted measurements of the right noise source',
     'When the collection of a block ends and no health failure is latched (in enforced mode), at least 256 * osr '
     'non-stuck measurements - (256 + 65) * osr in enforced mode - were taken, not counting the priming one and not '
     'counting stuck ones. During start-up they come from the memory-access source alone and then from the hash source '
     'alone, each in full number; afterwards from the combined source. After the collection the start-up is completed.',
     ['inputs', 'histories', 'configurations'], 'every oversampling rate 1..20, both modes, all start-up states and every '
     'sequence of accepted and rejected measurements', 'the number of measurements behind a block is not observable',
     [NOISE], [('collection', NOISE + ':jent_random_data_one'), ('start-up', NOISE + ':jent_random_data')],
     [('startup_state', 'start-up stage', INT)], ['blocks handed out'])
prop('C08', 'No instance works without passed self tests',
     'An initialisation reports success and sets the process-wide mark only after the known-answer tests of the '
     'conditioner, the test of the divisor search and the start-up test of a time source all passed; an initialisation '
     'that fails always ends with the mark cleared. An allocation never puts an instance to work and never hands one '
     'out unless it found the mark set or its own initialisation run succeeded.',
     ['inputs', 'fault_sequences', 'schedules'], 'every argument, every verdict of the tests, allocations running while '
     'an initialisation is in progress', 'needs failing self tests in particular combinations and orders', [BASE],
     [('verdict', BASE + ':jent_entropy_init_ex'), ('gate', BASE + ':jent_entropy_collector_alloc_internal')],
     [('jent_selftest_run', 'self tests passed', BASE)], ['return value of initialisation and allocation'])
prop('C09', 'The self test judges every output byte and binds a failure to the instance',
     'The conditioner self test reports success only if every byte of a SHA3-256 known answer and of an XDRBG/SHAKE '
     'known answer had the one expected value. A failure run on behalf of an instance marks that instance; a success '
     'leaves the mark as it was.', ['inputs', 'fault_sequences'], 'every wrong output of the conditioner at every byte '
     'position, with and without an instance', 'tests run the self test on a working conditioner only', [SHA3, BASE],
     [('known answers', SHA3 + ':jent_sha3_tester'), ('binding', BASE + ':jent_selftest')],
     [('selftest_failed', 'bound self test failed', INT)], ['verdict of the self test'])
prop('C17', 'A replaced instance keeps its identity, limits and health history',
     'When an instance is replaced after a health failure, the new one is allocated with a strictly larger '
     'oversampling rate (never above the maximum of 20) for which the start-up test has just passed, with the same '
     'option flags and, if the caller capped the memory size, the same memory size. It carries over the UUID, the read '
     'and byte counters, the failed-self-test mark and the memory cap, it enforces the health tests if the old one did, its reinitialisation counter is one higher, and '
     'its lag, proportion and repetition tests continue from the old instance instead of starting afresh.',
     ['inputs', 'histories', 'fault_sequences'], 'every oversampling rate, flag word and content of the old '
     'instance, every verdict of the start-up tests', 'replacement needs a real intermittent health failure, which '
     'tests hardly ever see', [BASE, HEALTH], [('replacement', BASE + ':jent_health_failure_reset'),
     ('continuation', HEALTH + ':jent_apt_duplicate')], [], ['arguments of the allocation', 'fields of the new instance'])
prop('C18', 'Output accounting is exact',
     'Every successful read adds exactly one to the read counter and exactly the number of delivered bytes to the byte '
     'counter of the instance; a read that returns an error changes neither.',
     ['inputs', 'fault_sequences'], 'every instance state, length and failure position',
     'tests check the counters after a few successful reads only', [BASE], [('accounting', BASE + ':jent_read_entropy')],
     [('read_invocations', 'successful reads', INT), ('bytes_output', 'bytes delivered', INT)], ['status output'])
prop('C19', 'A read fills exactly the requested bytes and nothing else',
     'A successful read writes every byte of the first len bytes of the buffer exactly once in order and returns len '
     '(only a length beyond the signed maximum is cut down to that maximum). No read, successful or not, ever writes '
     'outside these len bytes, and never more than one 256-bit block is produced per collection.',
     ['inputs'], 'every length and every failure position',
     'tests sample a few lengths; an off-by-one for particular residues or huge lengths is not seen',
     [BASE, SHA3], [('block loop', BASE + ':jent_read_entropy')], [], ['caller buffer', 'return value'])

prop('C24', 'An allocation hands out only a started, judged and identified instance',
     'Whatever fails on the way, an allocation returns either nothing or one live instance that has collected noise '
     'since it was created, has completed its start-up stages, carries no health failure from it (when it enforces the '
     'health tests), has its identifier and a stopped timer. Every other instance created meanwhile is released '
     'exactly once, and noise is only collected for a live instance whose timer was started.',
     ['inputs', 'fault_sequences', 'histories'], 'every argument, every outcome of memory allocation, timer start, '
     'start-up test and noise collection, any number of start-up repetitions',
     'failing start-ups followed by failing allocations cannot be provoked with real noise', [BASE],
     [('start-up loop', BASE + ':_jent_entropy_collector_alloc'), ('replacement', BASE + ':jent_health_failure_reset')],
     [('startup_state', 'start-up stage', INT)], ['returned instance', 'releases'])

prop('C31', 'An instance is configured exactly as requested',
     'A new instance uses the requested oversampling rate raised to at least 3, and requests above 20 are refused. The '
     'health tests are enforced exactly when NTG.1, the FIPS flag or the system asks for it, and such an instance starts '
     'with the separate stages for both noise sources, never without the memory source, and (for the two flags) only '
     'with protected memory; NTG.1 never uses the internal timer. All cutoffs of the health tests are the documented '
     'ones for that rate and mode, from the first measurement on and through all start-up stages. The memory source '
     'gets a power of two of 1 kB to 512 MB, the requested size if there was one, with a matching address mask; the '
     'loop counts are the documented ones, and every other option bit is kept.',
     ['inputs', 'configurations'], 'every oversampling rate and every flag word, both answers of the system, any cache '
     'geometry', 'tests run a handful of flag combinations; a wrong cutoff for one rate in one mode changes no outcome '
     'on healthy hardware', [BASE, HEALTH, NOISE], [('set-up', BASE + ':jent_entropy_collector_alloc_common'),
     ('cutoffs', HEALTH + ':jent_health_init'), ('stages', NOISE + ':jent_random_data')],
     [('is_fips_enabled', 'health tests enforced', INT), ('osr', 'oversampling rate', INT)],
     ['health test verdicts', 'status output'])

prop('C10', 'Every object with entropy state is released exactly once, over its full size',
     'The instance, its noise memory, its hash state, the timer context and the delta histories of the start-up and '
     'divisor self tests are each released at most once and always with exactly the size they were allocated with (the '
     'release wipes that many bytes), are not touched afterwards, and none is lost: after every outcome of an '
     'allocation, start-up test or release only what the returned instance owns still exists.',
     ['inputs', 'fault_sequences', 'histories'], 'every argument, every allocation or timer start failing or not, every '
     'verdict in between', 'a wrong wipe length or a leak on one error path is invisible to functional tests',
     [BASE, SHA3, GCD, TIMER], [('allocation', BASE + ':jent_entropy_collector_alloc'),
     ('release', BASE + ':jent_entropy_collector_free'), ('start-up test', BASE + ':jent_time_entropy_init'),
     ('history', GCD + ':jent_gcd_fini')], [('memmask', 'size of the noise memory - 1', INT)],
     ['releases'])
prop('C11', 'No intermediate secret is left on the stack',
     'Every byte buffer or hash context that collecting noise and generating output puts on the stack holds only zeros '
     'when its function returns, whatever path was taken, and the compiler cannot drop the wipe.',
     ['inputs', 'configurations'], 'every path of every such function', 'dead stack contents are not observable by '
     'a test', [NOISE, SHA3, BASE], [('collection', NOISE + ':jent_hash_insert'),
     ('output', SHA3 + ':jent_xdrbg256_generate_block')], [], ['stack contents'])
prop('C12', 'Memory with entropy state is guarded, locked, kept out of dumps and wiped',
     'Memory for entropy state comes from a private mapping between two inaccessible guard pages, is excluded from core '
     'dumps, and a lock is requested for every byte of it; when protected memory was required the allocation fails '
     'unless the lock was obtained, and memory is called protected only then. A failed allocation leaves no mapping. '
     'A release first overwrites every byte with zeros in a way the compiler must keep and then unmaps exactly the '
     'mapping.', ['inputs', 'fault_sequences'], 'every size, flag word and outcome of the system calls, page sizes of '
     '4, 16 and 64 kB (POSIX backend)', 'sizes that are not a multiple of the page, and failing system calls, '
     'are hardly sampled, and the effects are invisible in-process',
     [MEM], [('allocation', MEM + ':jent_zalloc'), ('release', MEM + ':jent_zfree'),
     ('claim', MEM + ':jent_memory_is_secure')], [], ['mappings', 'protection'])

prop('C23', 'A time source passes the start-up test only with acceptable measurements',
     'The start-up test succeeds only if, on an instance that enforces the health tests, 1024 consecutive measurements '
     'were recorded (after warm-up measurements that must not fail either) in which no time stamp and no delta was '
     'zero, at most 3 time stamps did not increase, at most 90% were stuck, no health failure was latched, and the '
     'recorded deltas vary by at least one in osr measurements and have a common divisor below 2^31. Otherwise the '
     'returned code names a defect that was really found (missing timer, coarse timer, backwards timer, repetition '
     'failure, other health failure, stuck).',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of time stamps, deltas and stuck verdicts, every rate '
     'and flag word', 'clocks that are bad in one particular way at one position cannot be enumerated', [BASE, GCD],
     [('measurement loop', BASE + ':jent_time_entropy_init'), ('deltas', GCD + ':jent_gcd_analyze')],
     [('prev_time', 'last time stamp', INT)], ['verdict of the start-up test'])

prop('C14', 'Threads with instances of their own never race on process-wide state',
     'Several threads may initialise the library and allocate, read and release instances of their own at the same time. '
     'Every variable the library keeps for the whole process is then accessed only through atomic operations that '
     'publish and acquire what the variable stands for, or is configuration nobody writes once the library is in use, or '
     'is published: exactly one thread writes it, its flag is set only after it is complete, and it is read only after '
     'the flag was seen. A pointer from such a variable is called only if the very value that was loaded was tested.',
     ['schedules', 'histories'], 'every interleaving of any number of threads', 'data races show up in rare '
     'interleavings and on weakly ordered machines only', [BASE, GCD, TIMER, HEALTH, 'arch/jitterentropy-arch-cache.c',
     'arch/jitterentropy-arch-atomic.c'], [('divisor', GCD + ':jent_gcd_analyze'),
     ('cache size', 'arch/jitterentropy-arch-cache.c:jent_cache_size_roundup'),
     ('accessors', 'arch/jitterentropy-arch-atomic.c')],
     [('jent_common_timer_gcd', 'common divisor of the time stamps', GCD)], ['results in other threads'])
prop('C15', 'Configuration is accepted only before the first initialisation, or not at all',
     'A timer handler, the CPU of the counting thread and the failure callback can be set until the first '
     'initialisation starts its tests; afterwards every such call returns -EAGAIN and changes nothing, for the rest of '
     'the process. A handler with a missing function is refused with -EINVAL. An accepted setting is stored as given. '
     'The callback is told of every failure verdict of an enforcing instance exactly once, with the instance and its '
     'failure bits, and never otherwise.',
     ['inputs', 'histories', 'schedules'], 'every argument and every order of configuration calls and initialisations',
     'tests try a few orders; which settings survive a refused call is not looked at', [TIMER, HEALTH, BASE],
     [('handler', TIMER + ':jent_notime_switch'), ('CPU', TIMER + ':jent_notime_set_cpu'),
      ('callback', HEALTH + ':jent_health_failure'), ('closing', BASE + ':jent_entropy_init_ex')],
     [('jent_notime_switch_blocked', 'window closed', TIMER)], ['return value', 'callback invocations'])

prop('C29', 'Queries tell the truth, disclose no secret and stay within the buffer',
     'The status is one well-formed JSON document in which every documented entry equals the current value of the '
     'instance (identifier, counters, each failure bit, mode, rate, sizes, loop counts, flags). It is cut off within the '
     'buffer, and success is reported exactly when nothing was cut off. The identifier has the form of RFC 4122 and is '
     'copied completely or not at all. No query reads time stamps, deltas, noise memory or the hash state, and none '
     'changes the instance; the self test writes nothing but its own stack and the failure mark and calls nothing that '
     'could block or allocate, so it may run next to a read.',
     ['inputs', 'histories'], 'every instance content, buffer and length; both values of every flag and failure bit',
     'tests look at the status of healthy instances with large buffers', ['src/jitterentropy-status.c',
     'src/jitterentropy-uuid.c', BASE], [('status', 'src/jitterentropy-status.c:jent_status'),
     ('identifier', 'src/jitterentropy-uuid.c:jent_uuid_generate'), ('self test', BASE + ':jent_selftest')], [],
     ['status text', 'identifier'])

prop('C13', 'The counting thread runs exactly while an instance measures',
     'With the internal timer, time stamps are taken only between a successful start of the counting thread and its stop, '
     'and no call returns with the thread still running. The start resets stop mark, counter and reference first, hands '
     'the handler the context, the routine and the instance once, and reports its result; the stop sets the stop mark '
     'before it waits. The built-in handler marks a thread as started exactly while one exists, waits for it and releases '
     'its attributes on every path. The thread writes nothing but its counter, looks at the stop mark before every step '
     'and ends exactly when it is set; fields shared with it are never cached.',
     ['schedules', 'histories', 'fault_sequences'], 'every order of calls, every failure of the thread functions, every '
     'interleaving of the thread with its instance', 'a thread that is left running, or a counter that nobody increments, '
     'shows up as a hang in rare schedules only', [TIMER, BASE, 'arch/jitterentropy-arch-thread.c'],
     [('start and stop', TIMER + ':jent_notime_settick'), ('use', BASE + ':jent_read_entropy'),
      ('routine', TIMER + ':jent_notime_sample_timer'), ('threads', 'arch/jitterentropy-arch-thread.c')],
     [('notime_interrupt', 'stop mark', 'src/jitterentropy-internal.h')], ['liveness of reads', 'threads left behind'])

prop('C22', 'The internal timer is used only on request or as the last resort',
     'An initialisation tests the hardware timer unless the internal one is forced, falls back to the internal one only '
     'if the hardware timer failed, and never if it is disabled or NTG.1 is asked for; rate and options reach the test '
     'unchanged and the result is that of the tests. An instance uses the internal timer exactly if it asks for it or '
     'the process already switched to it, after the test of it passed and its thread was set up; forbidden or '
     'contradictory combinations are refused. The switch of the process is made only by a test of the internal timer '
     'and never undone. Every time stamp comes from the one timer of the instance, and from the counter only after it '
     'moved.',
     ['inputs', 'histories', 'fault_sequences'], 'every combination of the timer options, outcome of the tests and '
     'earlier switch of the process', 'which timer was really used cannot be seen from the outside, and tests run on '
     'machines with a good hardware timer', [BASE, TIMER],
     [('order of tests', BASE + ':jent_entropy_init_ex'), ('test', BASE + ':jent_time_entropy_init'),
      ('enabling', TIMER + ':jent_notime_enable'), ('time stamp', TIMER + ':jent_get_nstime_internal')],
     [('enable_notime', 'the instance uses the internal timer', INT), ('notime_prev_timer', 'last time stamp', INT)],
     ['return code', 'timer in use'])

prop('C16', 'The conditioner absorbs every byte once and never hands out what it keeps',
     'Whatever the lengths of the pieces, every byte given to the hash is absorbed exactly once, in order, and counted; '
     'a block enters the state whole. Finishing pads the buffered rest, delivers exactly the digest and leaves neither '
     'state nor buffered data behind. One output block is generated by squeezing a new 64-byte state from the old state '
     'and the new noise (code 0 for the first, 85 for later seedings), squeezing 96 bytes from that state and code 170, '
     'and handing out of the last 32 bytes as many as asked for; the first 64 always return into the sponge, so '
     'neither the old nor the next state is ever part of the output. The known-answer test passes only if every byte of '
     'both digests is as expected.',
     ['inputs', 'histories'], 'every fill level of the buffer, every length of input and output',
     'known-answer tests sample a few lengths; the feedback of the state cannot be observed', [SHA3],
     [('absorb', SHA3 + ':jent_sha3_update'), ('finish', SHA3 + ':jent_sha3_final'),
      ('generate', SHA3 + ':jent_drbg_generate_block'), ('known answers', SHA3 + ':jent_sha3_tester')],
     [('partial', 'block buffer', 'src/jitterentropy-sha3.h'), ('msg_len', 'bytes absorbed', 'src/jitterentropy-sha3.h')],
     ['digest', 'output block', 'state kept'])

KD = 'linux_kernel/'
prop('C25', 'Kernel module: an instance is used only under its own lock',
     'Every use of an instance by the kernel interfaces (character device, hardware RNG, crypto API, test interface, '
     'status files, self-test work) happens while the lock that protects that instance is held, through a pointer read '
     'under that lock. No lock is taken twice, and no call returns with a lock held. No wait for self-test work or for '
     'readers of a status file happens under a lock they need. A reader with O_NONBLOCK (or a hardware RNG request that '
     'must not wait) never sleeps on the lock. The verdict of a self test is recorded under the lock.',
     ['schedules', 'histories', 'fault_sequences'], 'every path of every entry point of the module, every failing step',
     'the module is compiled by the tests but never loaded', [KD + 'jitterentropy_chardev.c', KD + 'jitterentropy_hwrng.c',
     KD + 'jitterentropy_kcapi.c', KD + 'jitterentropy_testing.c', KD + 'jitterentropy_selftest.c'],
     [('read', KD + 'jitterentropy_chardev.c:jent_chardev_read'), ('work', KD +
     'jitterentropy_selftest.c:jent_selftest_instance_work_fn')], [], ['kernel locks'])

prop('C26', 'Kernel module: failures of the library lead to the documented reaction',
     'Character device, hardware RNG and crypto API report a permanent health failure or a failed self test as -EFAULT, '
     'and panic instead if the kernel runs in FIPS mode; an unrecovered intermittent failure is -EAGAIN, an invalid '
     'request or unusable timer -EINVAL. Only the bytes of a successful read are handed out; after a failure nothing '
     'more is read, and bytes already delivered are still reported. A failed self test panics in FIPS mode; otherwise it '
     'is recorded for the instance for good, reported, counted, and not repeated; a passing one is counted and the '
     'periodic run goes on. The module loads only if the library initialised, with the shortcut parameters folded into '
     'the options before, and registers nothing earlier.',
     ['inputs', 'histories', 'fault_sequences'], 'every return code of the library, both FIPS settings, every combination of '
     'shortcut parameters', 'the module is never loaded by the tests, and failures of the source cannot be provoked there',
     [KD + 'jitterentropy_error.h', KD + 'jitterentropy_selftest.c', KD + 'jitterentropy_mod.c'],
     [('mapping', KD + 'jitterentropy_error.h:jent_map_read_error'), ('self test', KD +
     'jitterentropy_selftest.c:jent_selftest_execute'), ('load', KD + 'jitterentropy_mod.c:jent_mod_init')], [],
     ['kernel failures'])

prop('C27', 'Kernel module: what is set up is undone, in a safe order',
     'When opening a device, setting up a crypto transform or loading the module fails at any step, no memory, instance, '
     'registration or proc entry stays behind and the open is not counted. Closing, clean-up and removal undo everything '
     'exactly once. An instance is released only after its periodic self test was cancelled, its status file removed and '
     'the hardware RNG unregistered, and nothing uses or refers to it afterwards. A proc entry is removed before the '
     'directory it lies in. The character device is the last thing registered.',
     ['histories', 'fault_sequences', 'schedules'], 'every failing step of every entry point of the module',
     'the module is never loaded by the tests', [KD + 'jitterentropy_mod.c', KD + 'jitterentropy_chardev.c',
     KD + 'jitterentropy_hwrng.c', KD + 'jitterentropy_kcapi.c', KD + 'jitterentropy_testing.c', KD + 'jitterentropy_proc.c'],
     [('load', KD + 'jitterentropy_mod.c:jent_mod_init'), ('close', KD + 'jitterentropy_chardev.c:jent_chardev_release')], [],
     ['kernel life cycle'])

prop('C28', 'Kernel module: nothing but the requested data leaves, and only to those allowed',
     'A read of the character device hands out only bytes of the last library read, in order, within the buffer and '
     'length the user gave. Nothing copied to user space exceeds the object it is taken from or was never written. The '
     'status is copied only if the user made room. Each single-value request is answered with exactly that value of the '
     'instance in its documented size; unknown requests are refused with -ENOTTY and failed copies reported. Buffers that '
     'held entropy or raw samples are wiped over their full size when released; no call leaks memory. A self test on '
     'request needs CAP_SYS_ADMIN; the raw noise interface is neither created nor opened on a locked-down kernel and is '
     'readable by its owner only; proc entries are read-only.',
     ['inputs', 'histories', 'fault_sequences'], 'every request, length and buffer, every failing step', 'the module is never '
     'loaded by the tests', [KD + 'jitterentropy_chardev.c', KD + 'jitterentropy_testing.c', KD + 'jitterentropy_ioctl.c',
     KD + 'jitterentropy_ioctl.h', KD + 'jitterentropy_proc.c'],
     [('read', KD + 'jitterentropy_chardev.c:jent_chardev_read'), ('answers', KD + 'jitterentropy_ioctl.c:jent_ioctl_field_get'),
      ('raw', KD + 'jitterentropy_testing.c:jent_testing_open')], [], ['kernel data'])

prop('C30', 'Answers of the operating system count only when they are complete',
     'Whatever open, read, getrandom and close report - errors, interruptions by signals, early ends of file, fewer bytes '
     'than asked for: random bytes of the operating system are reported as available only if every byte of the buffer came '
     'from its random number generator; FIPS mode is taken as enabled exactly when the first byte of the indicator file '
     'could be read and is 1; an interrupted call is repeated and never taken for the answer; text from a file is '
     'interpreted only with a terminator behind it; the system is never asked for more bytes than the buffer takes; and '
     'every descriptor is closed exactly once before the function returns, while one that could not be opened is not used.',
     ['inputs', 'fault_sequences'], 'every sequence of outcomes of the system calls, every length',
     'tests read regular files, which deliver everything at once and are never interrupted',
     ['arch/jitterentropy-arch-random.c', 'arch/jitterentropy-arch-fips.c', 'arch/jitterentropy-arch-cache.c'],
     [('random bytes', 'arch/jitterentropy-arch-random.c:jent_os_random_bytes'),
      ('FIPS indicator', 'arch/jitterentropy-arch-fips.c:jent_fips_enabled'),
      ('cache sizes', 'arch/jitterentropy-arch-cache.c:jent_cache_size_roundup')], [], ['fips indicator', 'os random'])

prop('N01', 'Entropy rate of the noise source',
     'Every 256-bit block handed out contains the claimed amount of entropy on every supported CPU.',
     ['configurations', 'histories'], 'every machine and load', 'statistical', [NOISE], [('noise', NOISE)],
     na='a statistical property of the executing hardware; no argument over the source code can establish it')
prop('N02', 'The conditioner computes SHA3-256 / SHAKE-256 / XDRBG-256',
     'The conditioning component computes the functions of FIPS 202 and the XDRBG construction for every input.',
     ['inputs'], 'every message', 'known-answer tests sample few lengths', [SHA3], [('sponge', SHA3)],
     na='bit-exact functional equivalence with the permutation needs symbolic execution or proof, outside the static '
        'analysis family; structural guarantees of the conditioner are claimed in C16')
prop('N03', 'Health-test cutoffs have the claimed false positive probability',
     'The cutoff tables of the health tests have a false positive probability of at most 2^-30 (intermittent) and '
     '2^-60 (permanent).', ['configurations'], 'every oversampling rate', 'needs arbitrary precision binomials',
     [HEALTH], [('tables', HEALTH)],
     na='a numerical fact about constants (tests/health/cutoffs.py computes it); not decidable by dataflow over the code')
prop('N04', 'Reads terminate', 'A read returns after a bounded time on every working timer.',
     ['schedules', 'histories'], 'every timer behaviour', 'unbounded loops over stuck samples', [NOISE],
     [('collection loop', NOISE)],
     na='termination depends on the time stamps the hardware delivers; no static bound exists')
