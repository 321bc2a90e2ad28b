/* cross-compiling without the target headers: nothing to declare */
