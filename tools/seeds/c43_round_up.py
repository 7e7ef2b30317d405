prop = "C43"
edits = [("src/DataSource.cc", "const ULong64_t eventsPerSlot = m_nEvents / m_nSlots;", "const ULong64_t eventsPerSlot = (m_nEvents + m_nSlots - 1) / m_nSlots;")]
needs = "numbers of events and slots such that the rounded up ranges exceed the events before the last slot, for example 5 events on 4 slots"
breaks = "slots get ranges of entries beyond the last one, and ranges whose end is before their begin"
files = ["c43.h", "RDataSource.hxx", "RDataFrame.hxx"]
