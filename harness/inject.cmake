# Injected after project(Bliss) by -DCMAKE_PROJECT_Bliss_INCLUDE: adds the conformance
# harness to the same build graph as the code under test (nothing is written in /repo).
cmake_language(DEFER CALL include "$ENV{VERIF_HARNESS_DIR}/targets.cmake")
