# Builds every source of /repo/src (the checks' subject) plus the harness. All output under $(B).
R ?= /repo
V ?= /verif
B ?= $(V)/build
CXX = g++
CXXFLAGS = -std=c++17 -O1 -g1 -w -include cstdint -DINCLUDE_FILESYSTEM -I$(V)/shim -I$(R)/src -I$(R)/extern/hgdb/include -pthread $(XFLAGS)
KSRC := $(wildcard $(R)/src/*.cc)
KOBJ := $(patsubst $(R)/src/%.cc,$(B)/k/%.o,$(KSRC))
VSRC := $(wildcard $(V)/harness/*.cc)
VOBJ := $(patsubst $(V)/harness/%.cc,$(B)/v/%.o,$(VSRC))
all: $(B)/check
lib: $(B)/libkratos.a
$(B)/k/%.o: $(R)/src/%.cc
	@mkdir -p $(B)/k
	$(CXX) $(CXXFLAGS) -MMD -MP -c $< -o $@
$(B)/v/%.o: $(V)/harness/%.cc
	@mkdir -p $(B)/v
	$(CXX) $(CXXFLAGS) -MMD -MP -c $< -o $@
$(B)/libkratos.a: $(KOBJ)
	rm -f $@; ar rcs $@ $(KOBJ)
$(B)/check: $(VOBJ) $(B)/libkratos.a
	$(CXX) $(XFLAGS) -pthread $(VOBJ) $(B)/libkratos.a -lfmt -lstdc++fs -o $@
-include $(KOBJ:.o=.d) $(VOBJ:.o=.d)
