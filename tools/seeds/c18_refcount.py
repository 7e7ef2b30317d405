prop = "C18"
edits = [("include/podio/utilities/MaybeSharedPtr.h", """    if (m_ctrlBlock && --m_ctrlBlock->count == 0) {
""", """    if (m_ctrlBlock) {
      --m_ctrlBlock->count;
    }
    if (m_ctrlBlock && m_ctrlBlock->count == 0) {
""")]
needs = "two threads that drop the last two handles of an object at the same time"
breaks = "both threads may see a count of zero and release the object twice, or one reads the count after the other released it"
env = 'DEMO_FLAGS="-fsanitize=address"'
