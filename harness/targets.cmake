set(HD "$ENV{VERIF_HARNESS_DIR}")
add_executable(conform ${HD}/main.cpp ${HD}/arrays.cpp ${HD}/obs.cpp)
target_include_directories(conform PRIVATE ${HD})
target_link_libraries(conform PRIVATE bliss_core bliss_preprocess drift_search drift_search_kernels estimators
  bliss_serialization flaggers file_types bland fmt::fmt-header-only stdc++fs)
