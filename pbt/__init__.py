"""Property-based checks for jax_act_controller."""
