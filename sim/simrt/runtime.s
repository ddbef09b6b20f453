// Makes the compiler accept seedRuntime, whose body is in the patched runtime.
