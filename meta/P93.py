TITLE = "What was flushed survives a loss of power"
STATEMENT = "After the machine loses power at any moment, everything flushed before is found again at the next start and no page is half written."
OVER = ["crash_points"]
QUANT = "every order in which the kernel may write dirty pages back"
WHY = "Tests never cut the power, and a killed process leaves its dirty pages with the kernel."
FILES = ["src/core/mmap.cpp", "src/utils/append.cpp", "src/utils/meta.cpp"]
MECH = [("flushing", "src/core/mmap.cpp"), ("append log", "src/utils/append.cpp")]
OBSERVE = ["files after the restart"]
NA = """The server asks for asynchronous write-back of mapped pages and leaves their order to the kernel; which of them reach the disk is decided outside of the source, so no
rule over it can show the property, and for asynchronous flushes it does not hold. The order of the server's own steps, which is what a crash of the process alone
exposes, is decided under P05, P07, P08 and P09."""
