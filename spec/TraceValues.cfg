SPECIFICATION Spec
VIEW View
