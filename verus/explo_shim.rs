// ---- data of the external exploration engine (graph_process_manager_core)
pub struct GenericNode<K> { pub kind: K, pub depth: u32 }
pub struct GenericStep<K> { pub parent_id: u32, pub id_as_child: u32, pub kind: K }
