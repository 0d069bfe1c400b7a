const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=1:allocator_may_return_null=1"; }
