NA["C16"] = "decided by the code that #[derive(Serialize, Deserialize)] generates and by quick_xml and serde_json themselves: the repository holds only attributes, no function a contract could be put on (see DESIGN.md)"
