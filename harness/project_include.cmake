# Injected after project(disir): leaves the tests and documentation out and drops the flags gcc 13 trips over.
macro (add_subdirectory dir)
  if ("${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}")
    remove_definitions (-Werror)
  endif ()
  if ("${CMAKE_CURRENT_SOURCE_DIR}" STREQUAL "${CMAKE_SOURCE_DIR}" AND ("${dir}" STREQUAL "test" OR "${dir}" STREQUAL "doc"))
  else ()
    _add_subdirectory (${dir} ${ARGN})
  endif ()
endmacro ()
