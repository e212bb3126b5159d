// Options of the sanitizer runtime of nbsim_asan.
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=0:handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=1:malloc_context_size=4";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=97"; }
