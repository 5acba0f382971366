include Makefile
pf:
	@echo "CFLAGS $(CFLAGS)"
	@echo "CXXFLAGS $(CXXFLAGS)"
