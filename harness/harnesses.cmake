harness(e2e_valid SRC e2e.cc DEFS PROP=1 LIBS shm common)
harness(e2e_cut SRC e2e.cc DEFS PROP=2 LIBS shm common)
harness(e2e_balance SRC e2e.cc DEFS PROP=3 LIBS shm common)
harness(reproducible SRC hist.cc DEFS PROP=4 LIBS shm common)
harness(histories SRC hist.cc DEFS PROP=5 LIBS shm common)
harness(codecs LIBS common)
harness(codecs_fast SRC codecs.cc DEFS KAMINPAR_COMPRESSION_FAST_DECODING OPTS -mbmi2 LIBS common)
harness(compress LIBS shm common)
harness(compress_svb SRC compress.cc DEFS ONLY_NEIGHBORHOODS KAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING LIBS common)
harness(compress_plain SRC compress.cc DEFS ONLY_NEIGHBORHOODS OPTS -UKAMINPAR_COMPRESSION_INTERVAL_ENCODING -UKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING LIBS common)
harness(heaps LIBS common)
harness(containers LIBS common)
harness(primitives LIBS common)
harness(gains_table SRC gains.cc DEFS PART=1 LIBS shm common)
harness(gains_hash SRC gains.cc DEFS PART=2 LIBS shm common)
harness(refine LIBS shm common)
harness(cluster SRC coarsen.cc DEFS PART=1 LIBS shm common)
harness(contract SRC coarsen.cc DEFS PART=2 LIBS shm common)
harness(extract LIBS shm common)
harness(initial LIBS shm common)
harness(reorder LIBS shm common)
harness(partition LIBS shm common)
harness(io LIBS shmio shm common)
harness(config SRC cli.cc DEFS PART=1 LIBS cli version shmio shm common)
harness(program SRC cli.cc DEFS PART=2 LIBS cli version shmio shm common)
harness(tools LIBS cli version shmio shm common)
if (WITH_DIST)
  harness(dist_comm LIBS dist shm common)
  harness(dist_graph LIBS dist shm common)
  harness(dist_io LIBS distio dist shm common)
  harness(dist_extract LIBS dist shm common)
  harness(dist_e2e LIBS dist shm common)
  harness(dist_refine LIBS dist shm common)
  harness(dist_contract SRC dist_coarsen.cc DEFS PART=2 LIBS dist shm common)
  harness(dist_cli LIBS dcli version distio dist shm common)
  harness(dist_conf LIBS dcli version distio dist shm common)
  harness(dist_cluster SRC dist_coarsen.cc DEFS PART=1 LIBS dist shm common)
endif ()
