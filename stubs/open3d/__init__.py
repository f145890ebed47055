"""open3d is not installed in the sandbox; gradslam only needs it for visualisation."""
