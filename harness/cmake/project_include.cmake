# Injected right after project(disir) through CMAKE_PROJECT_disir_INCLUDE: only /repo/lib is built
# (the driver needs the library alone), without -Werror (written for gcc 6).
macro (add_subdirectory dir)
  if ("${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}")
    remove_definitions (-Werror)
    if ("${dir}" STREQUAL "lib")
      _add_subdirectory (${dir} ${ARGN})
    endif ()
  else ()
    _add_subdirectory (${dir} ${ARGN})
  endif ()
endmacro ()
