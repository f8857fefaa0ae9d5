// native functions whose behaviour does not depend on (or must not be split on) the symbolic bytes reachable from their arguments
{"_Znw", SAFE}, {"_Zna", SAFE}, {"_Zdl", SAFE}, {"_Zda", SAFE},
{"_ZSt18_Rb_tree_", SAFE}, {"_ZSt29_Rb_tree_", SAFE}, {"_ZSt28_Rb_tree_", SAFE},
{"_ZNSt8__detail15_List_node_base", SAFE}, {"_ZNKSt8__detail20_Prime_rehash_policy", SAFE},
{"__cxa_", SAFE}, {"_Unwind_", SAFE}, {"__gxx_", SAFE}, {"__dynamic_cast", SAFE},
{"pthread_", SAFE}, {"__pthread", SAFE}, {"__gthr", SAFE}, {"malloc$", SAFE}, {"free$", SAFE}, {"calloc$", SAFE},
{"__errno_location$", SAFE}, {"_ZSt20__throw", SAFE}, {"_ZSt19__throw", SAFE}, {"_ZSt24__throw", SAFE}, {"_ZSt17__throw", SAFE},
{"_ZSt16__throw", SAFE}, {"_ZSt21__throw", SAFE}, {"_ZSt25__throw", SAFE}, {"_ZSt28__throw", SAFE}, {"_ZSt2", SAFE},
{"_ZNSo9_M_insert", PINARGS}, {"_ZNSolsE", PINARGS}, {"_ZNSo", SAFE}, {"_ZStls", SAFE}, {"_ZNSt8ios_base", SAFE}, {"_ZNSt6locale", SAFE}, {"_ZNSt9basic_ios", SAFE}, {"_ZNKSt9basic_ios", SAFE},
{"_ZSt4endl", SAFE}, {"_ZSt5flush", SAFE}, {"_ZNSt13basic_ostream", SAFE}, {"_ZNSt7__cxx1119basic_ostringstream", SAFE},
{"_ZNSt7__cxx1118basic_stringstream", SAFE}, {"_ZNSt7__cxx1115basic_stringbuf", SAFE}, {"_ZNSt15basic_streambuf", SAFE},
{"_ZNSt9exception", SAFE}, {"_ZNSt13runtime_error", SAFE}, {"_ZNSt11logic_error", SAFE}, {"_ZNSt12out_of_range", SAFE},
{"_ZNSt16invalid_argument", SAFE}, {"_ZNSt15__exception_ptr", SAFE}, {"_ZNKSt9type_info", SAFE}, {"_ZNSt9type_info", SAFE},
{"_ZN5eckit9Exception", SAFE}, {"_ZN5eckit12CodeLocation", SAFE}, {"_ZNK5eckit12CodeLocation", SAFE}, {"_ZN5eckit3Log", SAFE}, {"_ZN5eckit13handle_assert", SAFE}, {"_ZN5eckit13AssertionFailedC", SAFE},
{"_ZN5eckit9UserErrorC", SAFE}, {"_ZN5eckit10SeriousBugC", SAFE}, {"_ZN5eckit8BadValueC", SAFE}, {"_ZN5eckit12BadParameterC", SAFE},
{"_ZN5eckit9ReadErrorC", SAFE}, {"_ZN5eckit10WriteErrorC", SAFE}, {"_ZN5eckit12CantOpenFileC", SAFE}, {"_ZN5eckit10OutOfRangeC", SAFE},
{"_ZN5eckit15UnexpectedStateC", SAFE}, {"_ZN5eckit14NotImplementedC", SAFE}, {"_ZN5eckit16FailedSystemCallC", SAFE}, {"_ZN5eckit18FunctionalitySuppC", SAFE},
{"_ZN5eckit7ChannelD", SAFE}, {"_ZN5eckit5MutexC", SAFE}, {"_ZN5eckit5MutexD", SAFE}, {"_ZN5eckit5Mutex", SAFE},
{"_ZN5eckit6StreamD", SAFE}, {"_ZN5eckit12MemoryStreamC", SAFE}, {"_ZN5eckit12MemoryStreamD", SAFE}, {"_ZN5eckit21ResizableMemoryStreamC", SAFE}, {"_ZN5eckit21ResizableMemoryStreamD", SAFE},
{"_ZN5eckit6BufferC", SAFE}, {"_ZN5eckit6BufferD", SAFE}, {"_ZNK5eckit6Buffer", SAFE}, {"_ZN5eckit7CountedD", SAFE}, {"_ZN5eckit7CountedC", SAFE}, {"_ZNK5eckit7Counted", SAFE},
{"_ZN5eckit6StdDir", SAFE}, {"_ZN5eckit14PartFileHandle4", SAFE}, {"_ZN5eckit14PartFileHandle5", SAFE}, {"_ZN5eckit20PooledFileDescriptor4open", SAFE}, {"_ZN5eckit20PooledFileDescriptor5close", SAFE}, {"_ZN5eckit20PooledFileDescriptor4seek", SAFE}, {"_ZN5eckit20PooledFileDescriptor7seekEnd", SAFE}, {"_ZN5eckit20PooledFileDescriptor4sync", SAFE}, {"_ZN5eckit10FileHandle4read", SAFE}, {"_ZN5eckit12MemoryHandle4read", SAFE},
{"memcpy$", SAFE}, {"memmove$", SAFE}, {"memset$", SAFE}, {"_ZSt11_Hash_bytes", SAFE}, {"posix_memalign$", SAFE}, {"aligned_alloc$", SAFE},
{"_ZNSt18condition_variable", SAFE}, {"_ZNSt6thread", SAFE}, {"_ZSt9terminate", SAFE}, {"abort$", SAFE}, {"getpid$", SAFE},
{"_ZN5eckit12MemoryStream", SAFE}, {"_ZN5eckit21ResizableMemoryStream", SAFE}, {"_ZNK5eckit12MemoryStream", SAFE}, {"_ZNK5eckit21ResizableMemoryStream", SAFE},
{"_ZN5eckitlsERNS_6StreamERKNS_10StreamableE", SAFE}, {"_ZN5eckit14ReanimatorBase9reanimate", SAFE}, {"_ZNK5eckit3URI6encode", SAFE},
{"_ZN5eckit6Stream6badTag", SAFE}, {"_ZN5eckit9ShortFileC", SAFE}, {"_ZN5eckit6Stream7readTag", SAFE},
{"_ZN5eckit9Tokenizer", SAFE}, {"_ZN6metkit4mars11MarsRequestC2ERKNSt", SAFE}, {"_ZN6metkit4mars11MarsRequestC1ERKNSt", SAFE}, {"_ZN6metkit4mars11MarsRequestD", SAFE}, {"_ZN6metkit4mars9ParameterD", SAFE},
{"_ZN5eckit6BufferaS", SAFE}, {"_ZN5eckit6Buffer4swap", SAFE},
{"_ZSt17rethrow_exception", SAFE}, {"_ZNSt13__future_base", SAFE}, {"_ZSt17current_exception", SAFE}, {"_ZNSt3_V2", SAFE}, {"_ZSt15future_category", SAFE},
