prop = "C16"
edits = [("include/podio/Frame.h", """  std::scoped_lock lock{*m_mapMtx, *m_dataMtx};

  auto collections = m_data->getAvailableCollections();
  collections.reserve(collections.size() + m_collections.size());
""", """  std::unique_lock dataLock{*m_dataMtx};
  auto collections = m_data->getAvailableCollections();
  dataLock.unlock();

  collections.reserve(collections.size() + m_collections.size());
  std::lock_guard lock{*m_mapMtx};
""")]
needs = "one thread asks for the available collections while another one unpacks a collection"
breaks = "a collection that is unpacked in between is listed twice; its size is read without the lock (data race)"
env = 'DEMO_FLAGS="-fsanitize=thread"\nexport TSAN_OPTIONS="halt_on_error=1 exitcode=66"'
